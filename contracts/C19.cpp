// C19: lookup containers return the stored value for present keys only
//@ opts: {"smallloops": 16, "symunroll": 8}
//@ assume: the search of a tree (BlockedBinaryNode::get_location) and the insertion of a node (add_node) are discharged for all keys, values and node contents of every binary search tree of up to 3 levels (7 nodes, WIDTH 4); deeper trees are covered by the bounded histories only
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
using namespace NESO::Particles;
#ifdef NPV_VC
template <typename K, typename V> struct Table : LookupTable<K, V> { // access to the protected buffers
  Table(SYCLTargetSharedPtr t, int n) : LookupTable<K, V>(t, n) {}
  void become(int *e, V *d) { this->d_entry_exists->ptr = e; this->d_entries->ptr = d; this->root->d_entry_exists = e; this->root->d_entries = d; }
};
template <typename K> static void table_step() {
  const int64_t n = npv::sym("n", 1, 1 << 28);
  auto t = h_target();
  npv::storage<Table<K, REAL>> s;
  auto T = new (s.get()) Table<K, REAL>(t, (int)n);
  const K q = (K)npv::sym("q", npv::tmin<K>(), npv::tmax<K>()), k = (K)npv::sym("k", 0, (1 << 28) - 1);
  npv::assume(k < n);
  REAL x = 0, y = 0, z = 0, v = npv::symf("v");
  NPV_CHECK(!T->root->get(q, &x) && !T->host_get(q, &y), "no key is present in a new table");
  // after any history: each entry is present or not, with any value
  int *ex = npv::array<int>("exists", n, 0, 1);
  REAL *en = npv::array<REAL>("entries", n);
  T->become(ex, en);
  const bool in = 0 <= q && q < n, was = in && ex[in ? q : 0];
  const REAL old = en[in ? q : 0];
  REAL const *p = nullptr;
  const bool g = T->root->get(q, &x), h = T->host_get(q, &y), d = T->root->get(q, &p);
  NPV_CHECK(g == was && h == was && d == was, "exactly the keys that were added are present");
  NPV_CHECK(!was || (x == old && y == old && *p == old), "a present key yields its value");
  T->add(k, v);
  const bool is = was || q == k;
  const REAL val = q == k ? v : old;
  const bool g2 = T->root->get(q, &x), h2 = T->host_get(q, &z);
  NPV_CHECK(g2 == is && h2 == is, "adding a key makes that key present and no other");
  NPV_CHECK(!is || (x == val && z == val), "adding a key sets its value and no other");
  NPV_REACH("end");
}
NPV_PROVE(lookup_table_int, 1) { table_step<int>(); }
NPV_PROVE(lookup_table_INT, 1) { table_step<INT>(); }
// node and leaf keys: key == node * WIDTH + leaf, 0 <= leaf < WIDTH
template <typename K, INT W> static void node_keys() {
  const K q = (K)npv::sym("q", npv::tmin<K>() + W, npv::tmax<K>() - W);
  using N = BlockedBinaryNode<K, REAL, W>;
  const INT n = N::get_node_key(q), l = N::get_leaf_key(q);
  NPV_CHECK(0 <= l && l < W, "a leaf key indexes the block of its node");
  NPV_CHECK(n * W + l == (INT)q, "node and leaf keys identify the key");
  NPV_REACH("end");
}
NPV_PROVE(node_keys_int_64, 1) { node_keys<int, 64>(); }
NPV_PROVE(node_keys_INT_64, 1) { node_keys<INT, 64>(); }
NPV_PROVE(node_keys_INT_8, 1) { node_keys<INT, 8>(); }
NPV_PROVE(node_keys_INT_7, 1) { node_keys<INT, 7>(); }
NPV_PROVE(node_keys_INT_1, 1) { node_keys<INT, 1>(); }
// a search tree of 7 possible nodes: child i of node p is 2p+1 / 2p+2
using Nd = BlockedBinaryNode<INT, REAL, 4>;
struct Tree {
  Nd *n[7]; bool there[7]; INT key[7];
  Tree() {
    for (int i = 0; i < 7; i++) {
      n[i] = new Nd();
      key[i] = n[i]->node_key = npv::sym("node", -(1LL << 40), 1LL << 40);
      there[i] = i == 0 || (there[(i - 1) / 2] && npv::sym("there", 0, 1));
      for (int k = 0; k < 4; k++) { n[i]->exists[k] = npv::sym("set", 0, 1); n[i]->data[k] = npv::symf("val"); }
    }
    for (int i = 0; i < 7; i++) {
      n[i]->lhs = i < 3 && there[2 * i + 1] ? n[2 * i + 1] : nullptr;
      n[i]->rhs = i < 3 && there[2 * i + 2] ? n[2 * i + 2] : nullptr;
    }
    // in-order: 3 1 4 0 5 2 6
    const int o[7] = {3, 1, 4, 0, 5, 2, 6};
    for (int a = 0; a < 7; a++) for (int b = a + 1; b < 7; b++) npv::assume(!(there[o[a]] && there[o[b]]) || key[o[a]] < key[o[b]]);
  }
  
};
NPV_PROVE(tree_search, 1) {
  Tree t;
  const INT nk = npv::sym("nk", -(1LL << 40), 1LL << 40), l = npv::sym("leaf", 0, 3), q = nk * 4 + l;
  REAL x = 0;
  bool in = false, st = false; REAL val = 0;
  for (int i = 0; i < 7; i++) if (t.there[i] && t.key[i] == nk) { in = true; st = t.n[i]->exists[l]; val = t.n[i]->data[l]; }
  const bool g = t.n[0]->get(q, &x);
  NPV_CHECK(g == (in && st), "exactly the keys that were added are present");
  NPV_CHECK(!g || x == val, "a present key yields its value");
  NPV_REACH("end");
}
// the value stored under a key, by a scan of the nodes
struct Held { bool node, set; REAL val; };
static Held held(Tree &t, INT nk, INT l) {
  Held h{false, false, 0};
  for (int i = 0; i < 7; i++) if (t.there[i] && t.key[i] == nk) { h.node = true; h.set = t.n[i]->exists[l]; h.val = t.n[i]->data[l]; }
  return h;
}
NPV_PROVE(tree_set, 1) {
  Tree t;
  const INT nk = npv::sym("nk", -(1LL << 40), 1LL << 40), l = npv::sym("leaf", 0, 3), k = nk * 4 + l;
  const INT nq = npv::sym("nq", -(1LL << 40), 1LL << 40), m = npv::sym("mleaf", 0, 3);
  const REAL v = npv::symf("v");
  const Held hk = held(t, nk, l), hq = held(t, nq, m);
  const bool r = t.n[0]->set(k, v);
  NPV_CHECK(r == hk.node, "a value is stored exactly if the tree has the node of the key");
  const Held gq = held(t, nq, m);
  const bool same = r && nq == nk && m == l;
  NPV_CHECK(gq.set == (hq.set || same), "storing makes the key present and no other");
  NPV_CHECK(!gq.set || gq.val == (same ? v : hq.val), "storing changes the value of the key and no other");
  NPV_REACH("end");
}
// any search tree of 3 possible nodes and a new node
NPV_PROVE(tree_add_node, 1) {
  Nd *n[4]; INT key[4];
  bool there[4];
  for (int i = 0; i < 4; i++) {
    n[i] = new Nd();
    key[i] = n[i]->node_key = npv::sym("node", -(1LL << 40), 1LL << 40);
    there[i] = i == 0 || i == 3 || npv::sym("there", 0, 1);
    n[i]->lhs = nullptr; n[i]->rhs = nullptr;
    for (int k = 0; k < 4; k++) { n[i]->exists[k] = npv::sym("set", 0, 1); n[i]->data[k] = npv::symf("val"); }
  }
  if (there[1]) n[0]->lhs = n[1];
  if (there[2]) n[0]->rhs = n[2];
  npv::assume(!there[1] || key[1] < key[0]);
  npv::assume(!there[2] || key[0] < key[2]);
  for (int i = 0; i < 3; i++) npv::assume(!there[i] || key[i] != key[3]);
  const INT nq = npv::sym("nq", -(1LL << 40), 1LL << 40), m = npv::sym("mleaf", 0, 3);
  bool set = false; REAL val = 0, x = 0;
  for (int i = 0; i < 4; i++) if (there[i] && key[i] == nq) { set = n[i]->exists[m]; val = n[i]->data[m]; }
  n[0]->add_node(n[3]);
  const bool g = n[0]->get(nq * 4 + m, &x);
  NPV_CHECK(g == set, "adding a node makes its keys present and keeps every other");
  NPV_CHECK(!g || x == val, "adding a node changes no value");
  NPV_REACH("end");
}
#else
template <typename K, typename V, INT W> static void tree_history() {
  auto t = h_target();
  BlockedBinaryTree<K, V, W> T(t);
  std::map<K, V> ref;
  const INT span = npv::sym("span", 1, 400, 400), n = npv::sym("n", 0, 120, 120), c = npv::uni(0, 3) ? 0 : npv::uni(-1000000000, 1000000000);
  const int order = (int)npv::sym("order", 0, 3, 3);
  auto draw = [&](INT i) -> K {
    switch (order) { case 0: return (K)(c + npv::uni(-span, span)); case 1: return (K)(c - span + i * 2); case 2: return (K)(c + span - i * 2); default: return (K)(c + (i % 2 ? i : -i) * (span / 4 + 1)); }
  };
  auto look = [&](K k) {
    const bool in = ref.count(k);
    V v = (V)-7;
    const bool g = T.host_get(k, &v);
    NPV_CHECK(g == in, "exactly the keys that were added are present");
    NPV_CHECK(!in || v == ref[k], "a present key yields its value");
    if (T.root == nullptr) { NPV_CHECK(!in, "exactly the keys that were added are present"); return; }
    BufferDeviceHost<int> f(t, 2);
    BufferDeviceHost<V> o(t, 2);
    auto root = T.root; auto kf = f.d_buffer.ptr; auto ko = o.d_buffer.ptr;
    t->queue.submit([&](sycl::handler &h) { h.single_task<>([=]() {
      V const *p = nullptr;
      kf[0] = root->get(k, ko); kf[1] = root->get(k, &p);
      if (kf[1]) ko[1] = *p;
    }); }).wait_and_throw();
    f.device_to_host(); o.device_to_host();
    for (int i = 0; i < 2; i++) {
      NPV_CHECK((bool)f.h_buffer.ptr[i] == in, "a lookup on the device finds exactly the keys that were added");
      NPV_CHECK(!in || o.h_buffer.ptr[i] == ref[k], "a lookup on the device yields the value");
    }
  };
  look((K)c);
  for (INT i = 0; i < n; i++) {
    const K k = draw(i); const V v = (V)npv::uni(-1000, 1000);
    T.add(k, v); ref[k] = v;
    if (i % 16 == 0) { look(k); look((K)(k + 1)); look((K)(k - 1)); look((K)(k + W)); look((K)(k - W)); }
  }
  for (auto &kv : ref) { look(kv.first); }
  for (int i = 0; i < 40; i++) look((K)(c + npv::uni(-span - W, span + W)));
}
NPV_BOUNDED(tree_int_real_64, 60, 1) { tree_history<int, REAL, 64>(); }
NPV_BOUNDED(tree_INT_INT_8, 60, 1) { tree_history<INT, INT, 8>(); }
NPV_BOUNDED(tree_INT_REAL_3, 60, 1) { tree_history<INT, REAL, 3>(); }
NPV_BOUNDED(tree_int_int_1, 60, 1) { tree_history<int, int, 1>(); }
template <typename K, typename V> static void table_history() {
  auto t = h_target();
  const int n = (int)npv::sym("n", 1, 60, 60);
  LookupTable<K, V> T(t, n);
  std::map<K, V> ref;
  auto look = [&](K k) {
    const bool in = ref.count(k);
    V v = (V)-7;
    NPV_CHECK(T.host_get(k, &v) == in, "exactly the keys that were added are present");
    NPV_CHECK(!in || v == ref[k], "a present key yields its value");
    BufferDeviceHost<int> f(t, 2);
    BufferDeviceHost<V> o(t, 2);
    auto root = T.root; auto kf = f.d_buffer.ptr; auto ko = o.d_buffer.ptr;
    t->queue.submit([&](sycl::handler &h) { h.single_task<>([=]() {
      V const *p = nullptr;
      kf[0] = root->get(k, ko); kf[1] = root->get(k, &p);
      if (kf[1]) ko[1] = *p;
    }); }).wait_and_throw();
    f.device_to_host(); o.device_to_host();
    for (int i = 0; i < 2; i++) {
      NPV_CHECK((bool)f.h_buffer.ptr[i] == in, "a lookup on the device finds exactly the keys that were added");
      NPV_CHECK(!in || o.h_buffer.ptr[i] == ref[k], "a lookup on the device yields the value");
    }
  };
  const int ops = (int)npv::sym("ops", 0, 40, 40);
  for (int i = 0; i < ops; i++) {
    const K k = (K)npv::uni(0, n - 1); const V v = (V)npv::uni(-1000, 1000);
    T.add(k, v); ref[k] = v;
    look(k); look((K)npv::uni(-3, n + 3));
  }
  for (int k = -3; k < n + 3; k++) look((K)k);
  const K bad = (K)(npv::uni(0, 1) ? -1 - npv::uni(0, 5) : n + npv::uni(0, 5));
  NPV_CHECK(npv::expect_assert([&] { T.add(bad, (V)1); }), "adding a key outside the table is rejected");
  for (int k = -3; k < n + 3; k++) look((K)k);
}
NPV_BOUNDED(table_int_REAL, 60, 1) { table_history<int, REAL>(); }
NPV_BOUNDED(table_INT_INT, 60, 1) { table_history<INT, INT>(); }
#endif
