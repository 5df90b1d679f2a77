// C23: communication helpers deliver every message to its addressee.
#include "npv.hpp"
#include <neso_particles.hpp>
//@ replace: ^MPI_Irecv => npvr_irecv: MPI delivers to a receive what its source sent with its tag (assumed)
//@ replace: ^MPI_Isend => npvr_isend: MPI_Isend sends the buffer to the destination (assumed)
//@ replace: ^MPI_Waitall => npvr_waitall: MPI_Waitall completes its requests and reports their sources (assumed)
//@ replace: ^MPI_Wait$ => npvr_wait: MPI_Wait completes a barrier (assumed)
//@ replace: ^MPI_Ibarrier => npvr_ibarrier: MPI_Ibarrier starts a barrier (assumed)
//@ replace: ^MPI_Win_lock => npvr_win_lock: MPI_Win_lock opens an epoch (assumed)
//@ replace: ^MPI_Win_unlock => npvr_win_unlock: MPI_Win_unlock closes an epoch (assumed)
//@ replace: ^MPI_Comm_size => npvr_size: any number of ranks
//@ replace: ^MPI_Comm_rank => npvr_rank: any of the ranks
//@ replace: ^MPI_Gather$ => npvr_gather: MPI_Gather gives the root the number of each rank (assumed)
//@ replace: ^MPI_Allgather$ => npvr_allgather: MPI_Allgather gives the number of each rank (assumed)
//@ replace: ^MPI_Gatherv$ => npvr_gatherv: MPI_Gatherv gives the root the data of each rank at the displacement given (assumed)
//@ replace: ^MPI_Allgatherv$ => npvr_allgatherv: MPI_Allgatherv gives the data of each rank at the displacement given (assumed)
//@ replace: std::reduce<.*int\* => npvr_reduce: std::reduce returns the sum
//@ replace: ^MPI_Dist_graph_neighbors_count$ => npvr_degrees: MPI_Dist_graph_neighbors_count returns the numbers of edges (assumed)
//@ replace: ^MPI_Dist_graph_neighbors$ => npvr_neighbours: MPI_Dist_graph_neighbors returns the edges (assumed)
//@ replace: ^MPI_Dist_graph_create_adjacent$ => npvr_graph: MPI_Dist_graph_create_adjacent makes a graph of the edges (assumed)
//@ replace: ^MPI_Get_accumulate => npvr_accumulate: MPI_Get_accumulate adds to the window of a rank (assumed)
//@ design: Proved by assume-guarantee on one rank, MPI by the contracts listed under assumptions: CommunicationEdgesCounter's reset, init_count, get_count, exchange_send_recv_counts (sources known or any) and exchange_send_recv_data - for any numbers of distinct sources and destinations one send to each destination with its own number or buffer, one receive for each source into its own place and named beside it, matching tags, every request completed, counting between its two barriers only; gather_v and all_gather_v - each entry of each rank comes out after those of the ranks before it, and only where it is asked for; reverse_graph_edge_directions - sources and destinations with their weights change places. Bounded for the rest (the set reductions and the neighbourhood exchanges, whose tags are kept in std::map) and for whole protocols, whose guarantee relates the arguments of all ranks to the results of all ranks: 1-4 ranks under mpirun (so 3 ranks, not a power of two, included), patterns drawn per run from a seed known to every rank, so that each rank knows what every other rank passed.
//@ assume: the proofs are about gather_v of 64-bit integers; its other instances come from the same template
using namespace NESO::Particles;
#ifdef NPV_VC
#include "src/communication/communication_edges_counter.cpp"
#include "src/communication/communication_utility.cpp"
// what MPI does with the calls of one rank
template <typename T> struct Vec : std::vector<T> {
  Vec(T *p, int64_t n) { this->_M_impl._M_start = p; this->_M_impl._M_finish = p + n; this->_M_impl._M_end_of_storage = p + n; }
};
template <typename T> static Vec<T> &vec(T *p, int64_t n) { return *new Vec<T>(p, n); } // not destroyed
static constexpr int64_t RANKS = 1 << 20;
struct Net {
  bool bytes; // buffers rather than numbers are exchanged
  int64_t *theirs, *mine; // what a rank sends to this one, what it gets from this one
  int64_t *their_n, *my_n;
  int *recvs, *sends, *hits, *from;
  int posted, sent, waited, tag_r, tag_s, phase, held, incoming;
  CommunicationEdgesCounter *c;
};
static Net *N;
extern "C" int npvr_irecv(void *buf, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Request *r) {
  const int s = src == MPI_ANY_SOURCE ? N->from[N->posted] : src;
  if (N->bytes) {
    NPV_CHECK(t == MPI_BYTE, "bytes are received");
    *(int8_t *)buf = (int8_t)N->theirs[s]; N->their_n[s] = n;
  } else {
    NPV_CHECK((n == 1) & (t == MPI_INT64_T), "one number is received");
    *(int64_t *)buf = N->theirs[s];
  }
  *r = (MPI_Request)&ompi_mpi_byte;
  if (src != MPI_ANY_SOURCE) N->recvs[s]++; // MPI gives the message of another source to every receive from any
  N->posted++; N->tag_r = tag;
  return MPI_SUCCESS;
}
extern "C" int npvr_isend(const void *buf, int n, MPI_Datatype t, int dst, int tag, MPI_Comm, MPI_Request *r) {
  if (N->bytes) {
    NPV_CHECK(t == MPI_BYTE, "bytes are sent");
    N->mine[dst] = *(const int8_t *)buf; N->my_n[dst] = n;
  } else {
    NPV_CHECK((n == 1) & (t == MPI_INT64_T), "one number is sent");
    N->mine[dst] = *(const int64_t *)buf;
  }
  *r = (MPI_Request)&ompi_mpi_byte;
  N->sends[dst]++; N->sent++; N->tag_s = tag;
  return MPI_SUCCESS;
}
extern "C" int npvr_waitall(int n, MPI_Request *r, MPI_Status *st) {
  if (n > 0) NPV_FORALL(j, 0, n) NPV_CHECK(r[j] != nullptr, "every request is waited for");
  N->waited += n;
  if (st) for (int k = 0; k < n; k++) st[k].MPI_SOURCE = N->from[k];
  return MPI_SUCCESS;
}
extern "C" int npvr_ibarrier(MPI_Comm, MPI_Request *) { N->phase++; if (N->phase == 1) NPV_CHECK(N->c->recv_win_data[0] == 0, "nothing is counted before the barrier"); return MPI_SUCCESS; }
extern "C" int npvr_wait(MPI_Request *, MPI_Status *) { N->phase++; if (N->phase == 4) N->c->recv_win_data[0] += N->incoming; return MPI_SUCCESS; }
extern "C" int npvr_win_lock(int, int rank, int, MPI_Win) { NPV_CHECK(N->phase == 2, "a rank adds to the counts of others after the barrier that follows their reset"); N->held = rank; return MPI_SUCCESS; }
extern "C" int npvr_win_unlock(int rank, MPI_Win) { NPV_CHECK(N->held == rank, "the epoch of the rank is closed"); N->held = -1; return MPI_SUCCESS; }
extern "C" int npvr_accumulate(const void *a, int n, MPI_Datatype t, void *, int, MPI_Datatype, int rank, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Op op, MPI_Win) {
  NPV_CHECK((N->held == rank) & (n == 1) & (tn == 1) & (disp == 0) & (t == MPI_INT) & (tt == MPI_INT) & (op == MPI_SUM), "one number is added to the count of the rank");
  N->hits[rank] += *(const int *)a;
  return MPI_SUCCESS;
}
static void net(int64_t nfrom) {
  N = new Net();
  N->theirs = npv::array<int64_t>("theirs", RANKS, 0, 127); N->mine = npv::array<int64_t>("mine", RANKS, -1, -1);
  N->their_n = npv::array<int64_t>("their_n", RANKS, -1, -1); N->my_n = npv::array<int64_t>("my_n", RANKS, -1, -1);
  N->recvs = npv::array<int>("recvs", RANKS, 0, 0); N->sends = npv::array<int>("sends", RANKS, 0, 0); N->hits = npv::array<int>("hits", RANKS, 0, 0);
  N->from = npv::array_inj<int>("from", nfrom, 0, RANKS - 1);
  N->posted = N->sent = N->waited = N->phase = 0; N->held = -1;
  auto st = new npv::storage<CommunicationEdgesCounter>();
  N->c = st->get();
  N->c->recv_win_data = npv::array<int>("window", 1, 0, 1 << 20);
}
static void counts(bool ordered) {
  const int64_t ns = npv::sym("num_send", 1, RANKS), nr = npv::sym("num_recv", 1, RANKS);
  net(nr);
  int *to = npv::array_inj<int>("to", ns, 0, RANKS - 1), *from = ordered ? N->from : npv::array<int>("from0", nr, -9, 9);
  int64_t *data = npv::array<int64_t>("data", ns, 0, 1 << 30), *got = npv::array<int64_t>("got", nr, -5, -5);
  const int64_t k = npv::sym("k", 0, RANKS), j = npv::sym("j", 0, RANKS);
  npv::assume((k < ns) & (j < nr));
  const int to_k = to[k]; const int64_t data_k = data[k];
  N->c->exchange_send_recv_counts(vec(to, ns), vec(data, ns), vec(from, nr), vec(got, nr), ordered);
  NPV_CHECK((N->sends[to_k] == 1) & (N->mine[to_k] == data_k), "each destination is sent the number addressed to it");
  NPV_CHECK((to[k] == to_k) & (data[k] == data_k), "the message is not modified");
  NPV_CHECK(from[j] == N->from[j], "each source is named");
  NPV_CHECK(N->recvs[from[j]] == (int)ordered, "each source is received from once");
  NPV_CHECK(got[j] == N->theirs[from[j]], "the number of each source is returned beside its name");
  NPV_CHECK((N->posted == nr) & (N->sent == ns), "there is one receive for a source and one send for a destination");
  NPV_CHECK(N->waited == nr + ns, "all of them are completed");
  NPV_CHECK(N->tag_r == N->tag_s, "the tags of sends and receives match");
  NPV_REACH("end");
}
NPV_PROVE(counts_of_known_sources, 0) { counts(true); }
NPV_PROVE(counts_of_any_sources, 0) { counts(false); }
NPV_PROVE(data_exchange, 0) {
  const int64_t ns = npv::sym("num_send", 1, RANKS), nr = npv::sym("num_recv", 1, RANKS);
  net(nr);
  N->bytes = true;
  int *to = npv::array_inj<int>("to", ns, 0, RANKS - 1), *from = N->from;
  int64_t *n_to = npv::array<int64_t>("n_to", ns, 0, 1 << 30), *n_from = npv::array<int64_t>("n_from", nr, 0, 1 << 30);
  int8_t **data = npv::table2<int8_t>("data", ns, 1 << 30, 0, 127), **got = npv::table2<int8_t>("got", nr, 1 << 30, -5, -5);
  const int64_t k = npv::sym("k", 0, RANKS), j = npv::sym("j", 0, RANKS);
  npv::assume((k < ns) & (j < nr));
  N->c->exchange_send_recv_data(vec(to, ns), vec(n_to, ns), vec((void **)data, ns), vec(from, nr), vec(n_from, nr), vec((void **)got, nr));
  NPV_CHECK((N->sends[to[k]] == 1) & (N->mine[to[k]] == data[k][0]) & (N->my_n[to[k]] == n_to[k]), "each destination is sent the bytes addressed to it");
  NPV_CHECK((N->recvs[from[j]] == 1) & (got[j][0] == N->theirs[from[j]]) & (N->their_n[from[j]] == n_from[j]), "the bytes of each source are received in its buffer");
  NPV_CHECK((N->posted == nr) & (N->sent == ns), "there is one receive for a source and one send for a destination");
  NPV_CHECK(N->waited == nr + ns, "all of them are completed");
  NPV_CHECK(N->tag_r == N->tag_s, "the tags of sends and receives match");
  NPV_REACH("end");
}
NPV_PROVE(counting, 0) {
  const int64_t ns = npv::sym("num_send", 1, RANKS);
  net(1);
  N->incoming = npv::sym("incoming", 0, 1 << 20);
  int *to = npv::array_inj<int>("to", ns, 0, RANKS - 1);
  const int64_t k = npv::sym("k", 0, RANKS);
  npv::assume(k < ns);
  N->c->reset();
  N->c->init_count(vec(to, ns));
  NPV_CHECK(N->c->get_count() == N->incoming, "the count is the number of ranks that send to this one");
  NPV_CHECK(N->hits[to[k]] == 1, "each destination counts this rank once");
  NPV_REACH("end");
}
// gathers: one arbitrary entry of one arbitrary rank is followed
struct Gather {
  int size, rank, root, n, gathers;
  int *cnt;
  const void *in;
  MPI_Datatype t;
  int64_t r, j, value;
};
static Gather *G;
extern "C" int npvr_size(MPI_Comm, int *n) { *n = G->size; return MPI_SUCCESS; }
extern "C" int npvr_rank(MPI_Comm, int *n) { *n = G->rank; return MPI_SUCCESS; }
static void numbers(const void *in, int n, MPI_Datatype t, void *out, int on, MPI_Datatype ot, bool get) {
  NPV_CHECK((n == 1) & (t == MPI_INT), "a rank gives one number");
  NPV_CHECK(*(const int *)in == G->n, "a rank gives the size of its data");
  if (!get) return;
  NPV_CHECK((on == 1) & (ot == MPI_INT), "the number of each rank is received");
  const int *cnt = G->cnt;
  const int size = G->size;
  for (int k = 0; k < size; k++) ((int *)out)[k] = cnt[k];
}
static void entries(const void *in, int n, MPI_Datatype t, void *out, const int *cnt, const int *at, MPI_Datatype ot, bool get) {
  NPV_CHECK((in == G->in) & (n == G->n) & (t == G->t), "a rank gives its data");
  G->gathers++;
  if (!get) return;
  NPV_CHECK((cnt[G->r] == G->cnt[G->r]) & (ot == G->t), "the data of each rank are received");
  ((INT *)out)[at[G->r] + G->j] = G->value;
}
extern "C" int npvr_gather(const void *in, int n, MPI_Datatype t, void *out, int on, MPI_Datatype ot, int root, MPI_Comm) { NPV_CHECK(root == G->root, "the root"); numbers(in, n, t, out, on, ot, G->rank == root); return MPI_SUCCESS; }
extern "C" int npvr_allgather(const void *in, int n, MPI_Datatype t, void *out, int on, MPI_Datatype ot, MPI_Comm) { numbers(in, n, t, out, on, ot, true); return MPI_SUCCESS; }
extern "C" int npvr_gatherv(const void *in, int n, MPI_Datatype t, void *out, const int *cnt, const int *at, MPI_Datatype ot, int root, MPI_Comm) { NPV_CHECK(root == G->root, "the root"); entries(in, n, t, out, cnt, at, ot, G->rank == root); return MPI_SUCCESS; }
extern "C" int npvr_allgatherv(const void *in, int n, MPI_Datatype t, void *out, const int *cnt, const int *at, MPI_Datatype ot, MPI_Comm) { entries(in, n, t, out, cnt, at, ot, true); return MPI_SUCCESS; }
extern "C" int npvr_reduce(int *a, int *b) { return (int)npv::sum(a, b - a); }
static void gathered(int rooted, int least) {
  G = new Gather();
  // 0: every rank gets the data, 1: the root, 2: a rank before it, 3: a rank after it
  G->size = least == 1 ? 1 : (int)npv::sym("size", 2, RANKS);
  const int first = least == 1 ? 0 : (int)npv::sym("rank", 0, RANKS), second = rooted > 1 ? first + 1 + (int)npv::sym("further", 0, RANKS) : first;
  G->rank = rooted == 3 ? second : first;
  G->root = rooted == 0 ? -1 : rooted == 3 ? first : second;
  npv::assume(second < G->size);
  int *cnt = G->cnt = npv::array<int>("sizes", G->size, 0, 1 << 28);
  G->n = cnt[G->rank];
  INT *in = npv::array<INT>("in", G->n, -1000, 1000);
  G->in = in; G->t = MPI_LONG; G->r = npv::sym("r", 0, RANKS); G->j = npv::sym("j", 0, 1 << 28); G->value = npv::sym("value", -1000, 1000);
  npv::assume(G->r < G->size);
  npv::assume(G->j < cnt[G->r]);
  const int64_t total = npv::sum(cnt, G->size), at = npv::sum(cnt, G->r);
  npv::assume((total <= 1 << 30) & (at >= 0) & (at + cnt[G->r] <= total));
  G->t = map_ctype_mpi_type<INT>();
  auto *out = new std::vector<INT>();
  if (rooted) gather_v(vec(in, G->n), MPI_COMM_WORLD, G->root, *out);
  else all_gather_v(vec(in, G->n), MPI_COMM_WORLD, *out);
  NPV_CHECK(G->gathers == 1, "the data are gathered once");
  if (rooted > 1) { NPV_CHECK(out->size() == 0, "ranks other than the root get nothing"); NPV_REACH("end"); return; }
  NPV_CHECK((int64_t)out->size() == total, "the result holds what every rank gave");
  NPV_CHECK((*out)[at + G->j] == G->value, "the data of each rank come after those of the ranks before it");
  NPV_REACH("end");
}
NPV_PROVE(gather_on_root, 0) { gathered(1, 2); }
NPV_PROVE(gather_on_root_alone, 0) { gathered(1, 1); }
NPV_PROVE(gather_before_root, 0) { gathered(2, 2); }
NPV_PROVE(gather_after_root, 0) { gathered(3, 2); }
NPV_PROVE(gather_everywhere, 0) { gathered(0, 2); }
NPV_PROVE(gather_everywhere_alone, 0) { gathered(0, 1); }
// graphs
struct Edges {
  int in, out;
  int *sources, *destinations, *win, *wout;
  int made, k, j;
};
static Edges *E;
extern "C" int npvr_degrees(MPI_Comm, int *a, int *b, int *w) { *a = E->in; *b = E->out; *w = 1; return MPI_SUCCESS; }
extern "C" int npvr_neighbours(MPI_Comm, int n, int *s, int *sw, int m, int *d, int *dw) {
  NPV_CHECK((n == E->in) & (m == E->out), "every edge is asked for");
  const int in = E->in, out = E->out;
  for (int k = 0; k < in; k++) { s[k] = E->sources[k]; sw[k] = E->win[k]; }
  for (int k = 0; k < out; k++) { d[k] = E->destinations[k]; dw[k] = E->wout[k]; }
  return MPI_SUCCESS;
}
extern "C" int npvr_graph(MPI_Comm, int n, const int *s, const int *sw, int m, const int *d, const int *dw, MPI_Info, int, MPI_Comm *) {
  E->made++;
  NPV_CHECK((n == E->out) & (m == E->in), "the reversed graph has as many edges");
  NPV_CHECK((s[E->j] == E->destinations[E->j]) & (sw[E->j] == E->wout[E->j]), "destinations become sources");
  NPV_CHECK((d[E->k] == E->sources[E->k]) & (dw[E->k] == E->win[E->k]), "sources become destinations");
  return MPI_SUCCESS;
}
static void edges() {
  E = new Edges();
  E->in = (int)npv::sym("in", 1, RANKS); E->out = (int)npv::sym("out", 1, RANKS);
  E->sources = npv::array_inj<int>("sources", E->in, 0, RANKS - 1); E->destinations = npv::array_inj<int>("destinations", E->out, 0, RANKS - 1);
  E->win = npv::array<int>("weights_in", E->in, 0, 100); E->wout = npv::array<int>("weights_out", E->out, 0, 100);
  E->k = (int)npv::sym("k", 0, RANKS); E->j = (int)npv::sym("j", 0, RANKS);
  npv::assume((E->k < E->in) & (E->j < E->out));
}
NPV_PROVE(reversed_graph, 0) {
  edges();
  MPI_Comm c;
  NPV_CHECK(reverse_graph_edge_directions(MPI_COMM_WORLD, MPI_COMM_WORLD, &c) == MPI_SUCCESS, "success");
  NPV_CHECK(E->made == 1, "one graph is made");
  NPV_REACH("end");
}
#endif
#ifndef NPV_VC
namespace {
int nranks() { int s; MPI_Comm_size(MPI_COMM_WORLD, &s); return s; }
int myrank() { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); return r; }
// k-th value of an array every rank draws identically
std::vector<std::vector<std::int64_t>> draw_sizes(const int hi) {
  std::vector<std::vector<std::int64_t>> v(nranks());
  const bool dense = npv::uni(0, 2) == 0;
  for (auto &x : v) for (int k = 0; k < nranks(); k++) x.push_back(dense || npv::uni(0, 1) ? npv::uni(0, hi) : -1);
  return v;
}
template <typename T> void gathers() {
  const int P = nranks(), me = myrank();
  for (int it = 0; it < 3; it++) {
    std::vector<std::vector<T>> in(P);
    std::vector<T> all;
    for (auto &v : in) { for (int k = npv::uni(0, 1) ? (int)npv::uni(0, 30) : 0; k--;) v.push_back((T)npv::uni(-1000, 1000)); all.insert(all.end(), v.begin(), v.end()); }
    const int root = (int)npv::uni(0, P - 1);
    std::vector<T> a = in[me], o1((size_t)npv::uni(0, 9), (T)5), o2((size_t)npv::uni(0, 9), (T)7);
    gather_v(a, MPI_COMM_WORLD, root, o1);
    NPV_CHECK(a == in[me], "input not modified");
    NPV_CHECK(me == root ? o1 == all : o1.empty(), "the root gets the data of every rank in rank order");
    all_gather_v(a, MPI_COMM_WORLD, o2);
    NPV_CHECK(o2 == all, "every rank gets the data of every rank in rank order");
  }
}
template <typename T> void sets(const T scale) {
  const int P = nranks(), me = myrank();
  for (int it = 0; it < 3; it++) {
    std::vector<std::set<T>> in(P);
    std::set<T> all;
    for (auto &s : in) { for (int k = npv::uni(0, 1) ? (int)npv::uni(0, 20) : 0; k--;) s.insert((T)npv::uni(-30, 30) * scale); all.insert(s.begin(), s.end()); }
    const int root = (int)npv::uni(0, P - 1), src = (int)npv::uni(0, P - 1), dst = (int)npv::uni(0, P - 1);
    auto a = in[me];
    NPV_CHECK(set_reduce_union(a, root, MPI_COMM_WORLD) == (me == root ? all : std::set<T>{}), "union of all ranks on the root");
    NPV_CHECK(set_all_reduce_union(a, MPI_COMM_WORLD) == all, "union of all ranks everywhere");
    NPV_CHECK(set_bcast(a, root, MPI_COMM_WORLD) == in[root], "set of the root everywhere");
    if (src != dst) {
      if (me == src) set_send(a, dst, 3, MPI_COMM_WORLD);
      if (me == dst) NPV_CHECK(set_recv<T>(src, 3, MPI_COMM_WORLD) == in[src], "set of the sender");
    }
    NPV_CHECK(a == in[me], "input not modified");
  }
}
// every edge of the random multigraph: (from, to), in the order the sender lists it
struct Graph {
  std::vector<std::vector<int>> out, in; // destinations of each rank / sources of each rank
  MPI_Comm comm;
  Graph() : out(nranks()), in(nranks()) {
    const int P = nranks();
    for (int r = 0; r < P; r++) for (int d = 0; d < P; d++) if (npv::uni(0, 1)) out[r].push_back(d);
    for (auto &o : out) for (int i = (int)o.size() - 1; i > 0; i--) std::swap(o[i], o[(int)npv::uni(0, i)]);
    for (int r = 0; r < P; r++) for (int d : out[r]) in[d].push_back(r);
    for (auto &o : in) for (int i = (int)o.size() - 1; i > 0; i--) std::swap(o[i], o[(int)npv::uni(0, i)]);
    const int me = myrank();
    std::vector<int> wi(in[me].size() + 1, 1), wo(out[me].size() + 1, 1), i = in[me], o = out[me];
    i.reserve(1); o.reserve(1);
    MPI_Dist_graph_create_adjacent(MPI_COMM_WORLD, (int)in[me].size(), i.data(), wi.data(), (int)out[me].size(), o.data(), wo.data(), MPI_INFO_NULL, 0, &comm);
  }
  ~Graph() { MPI_Comm_free(&comm); }
};
} // namespace
NPV_BOUNDED(gathers_and_sets, 60, 4) {
  gathers<int>(); gathers<INT>(); gathers<REAL>();
  sets<int>(1);
  sets<INT>(npv::uni(0, 1) ? (INT)1 : (INT)1 << 33);
}
NPV_BOUNDED(neighbourhood_exchange, 60, 4) {
  const int me = myrank();
  Graph g;
  auto same = [&](const std::vector<int> &a, std::vector<int> b) { auto c = a; std::sort(c.begin(), c.end()); std::sort(b.begin(), b.end()); return c == b; };
  const int w = (int)npv::uni(0, 3);
  auto val = [&](int from, int to, int k) { return from * 1000 + to * 10 + k; };
  auto exchange = [&](MPI_Comm c, const std::vector<int> &to, const std::vector<int> &from, bool wrapper, const char *what) {
    std::vector<int> s, r(from.size() * w + 1, -3);
    for (int d : to) for (int k = 0; k < w; k++) s.push_back(val(me, d, k));
    s.reserve(1);
    NPV_CHECK((wrapper ? NP_MPI_Neighbor_alltoall_wrapper(s.data(), w, MPI_INT, r.data(), w, MPI_INT, c) : NP_MPI_Neighbor_alltoall(s.data(), w, MPI_INT, r.data(), w, MPI_INT, c)) == MPI_SUCCESS, "success");
    for (size_t i = 0; i < from.size(); i++) for (int k = 0; k < w; k++) NPV_CHECK(r[i * w + k] == val(from[i], me, k), what);
    NPV_CHECK(r.back() == -3, "nothing written past the end");
  };
  exchange(g.comm, g.out[me], g.in[me], false, "data of each source in the order of the sources");
  exchange(g.comm, g.out[me], g.in[me], true, "data of each source in the order of the sources");
  MPI_Comm rev;
  NPV_CHECK(reverse_graph_edge_directions(MPI_COMM_WORLD, g.comm, &rev) == MPI_SUCCESS, "success");
  int a, b, wt;
  MPI_Dist_graph_neighbors_count(rev, &a, &b, &wt);
  std::vector<int> from(a + 1), to(b + 1), w1(a + 1), w2(b + 1);
  MPI_Dist_graph_neighbors(rev, a, from.data(), w1.data(), b, to.data(), w2.data());
  from.resize(a); to.resize(b);
  NPV_CHECK(same(g.out[me], from) && same(g.in[me], to), "edges of the reversed graph");
  exchange(rev, to, from, false, "data over the reversed edges");
  MPI_Comm_free(&rev);
  // variable sizes, arbitrary displacements
  auto cnt = [&](int f, int t) { return (f * 7 + t * 3 + w) % 4; };
  auto run = [&](auto &&f) {
    std::vector<int> sc, rc, s, r;
    std::vector<MPI_Aint> sd, rd;
    std::vector<MPI_Datatype> st(g.out[me].size() + 1, MPI_INT), rt(g.in[me].size() + 1, MPI_INT);
    for (int d : g.out[me]) { s.push_back(-1); sd.push_back(s.size() * sizeof(int)); sc.push_back(cnt(me, d)); for (int k = 0; k < sc.back(); k++) s.push_back(val(me, d, k)); }
    for (int d : g.in[me]) { r.push_back(-1); rd.push_back(r.size() * sizeof(int)); rc.push_back(cnt(d, me)); r.resize(r.size() + rc.back(), -2); }
    r.push_back(-1); s.push_back(-1);
    std::vector<int> want = r;
    for (size_t i = 0; i < g.in[me].size(); i++) for (int k = 0; k < rc[i]; k++) want[rd[i] / sizeof(int) + k] = val(g.in[me][i], me, k);
    sc.push_back(0); rc.push_back(0); sd.push_back(0); rd.push_back(0);
    NPV_CHECK(f(s.data(), sc.data(), sd.data(), st.data(), r.data(), rc.data(), rd.data(), rt.data(), g.comm) == MPI_SUCCESS, "success");
    NPV_CHECK(r == want, "every source's data at its displacement and nothing else written");
  };
  run(NP_MPI_Neighbor_alltoallw);
  run(NP_MPI_Neighbor_alltoallw_wrapper);
}
NPV_BOUNDED(edge_discovery, 60, 4) {
  const int P = nranks(), me = myrank();
  CommunicationEdgesCounter e(MPI_COMM_WORLD);
  for (int it = (int)npv::uni(1, 4); it--;) {
    auto size = draw_sizes(40); // size[from][to], -1: no message
    auto byte = [&](int f, int t, int k) { return (unsigned char)(f * 31 + t * 7 + k * 3 + it); };
    std::vector<int> to, from, others;
    std::vector<std::int64_t> nto, nfrom((size_t)npv::uni(0, 3), 77);
    from.resize(npv::uni(0, 3), 66);
    for (int r = 0; r < P; r++) { if (size[me][r] >= 0) to.push_back(r); if (size[r][me] >= 0) others.push_back(r); }
    for (int i = (int)to.size() - 1; i > 0; i--) std::swap(to[i], to[(i * 7 + me) % (i + 1)]);
    for (int r : to) nto.push_back(size[me][r]);
    const auto to0 = to; const auto nto0 = nto;
    if (npv::uni(0, 1)) {
      e.get_remote_ranks(to, nto, from, nfrom);
    } else {
      e.reset(); e.init_count(to);
      NPV_CHECK(e.get_count() == (int)others.size(), "number of ranks that send to this rank");
      from.assign(others.size(), 0); nfrom.assign(others.size(), 0);
      const bool ordered = npv::uni(0, 1);
      if (ordered) from = others;
      e.exchange_send_recv_counts(to, nto, from, nfrom, ordered);
      if (ordered) NPV_CHECK(from == others, "the sources keep their order");
    }
    NPV_CHECK(to == to0 && nto == nto0, "inputs not modified");
    auto s = from; std::sort(s.begin(), s.end());
    NPV_CHECK(s == others, "exactly the ranks that send to this rank are found, each once");
    NPV_CHECK(nfrom.size() == from.size(), "one count per source");
    for (size_t i = 0; i < from.size(); i++) NPV_CHECK(nfrom[i] == size[from[i]][me], "the count the source addressed to this rank");
    std::vector<std::vector<unsigned char>> sb, rb;
    std::vector<void *> sp, rp;
    for (int r : to) { sb.emplace_back(size[me][r]); for (int k = 0; k < size[me][r]; k++) sb.back()[k] = byte(me, r, k); }
    for (int r : from) rb.emplace_back(size[r][me] + 4, 0xEE);
    for (auto &b : sb) sp.push_back(b.data());
    for (auto &b : rb) rp.push_back(b.data());
    e.exchange_send_recv_data(to, nto, sp, from, nfrom, rp);
    for (size_t i = 0; i < from.size(); i++) {
      for (int k = 0; k < nfrom[i]; k++) NPV_CHECK(rb[i][k] == byte(from[i], me, k), "the bytes the source addressed to this rank");
      for (int k = 0; k < 4; k++) NPV_CHECK(rb[i][nfrom[i] + k] == 0xEE, "nothing written past the end");
    }
  }
  e.free();
}
#endif
