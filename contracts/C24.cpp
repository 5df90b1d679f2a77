// C24: serialising mesh data and moving it between ranks loses nothing.
#include "npv.hpp"
#include <neso_particles.hpp>
//@ design: Proved: SerialContainer::append - the bytes that were there followed by the appended ones, the other container unchanged - and the serialisation of a list of objects of one size: each object in its place, in order. Serialising objects of varying size is a linked sequence of sizes, and MeshHierarchyContainer is std::map of vectors and MPI: outside the verifier's reach. Bounded: objects of 0-40 bytes, up to 8 per list; a hierarchy on 1-4 ranks with random owners, several gathers.
#ifndef NPV_VC
using namespace NESO::Particles;
namespace {
struct Obj : MeshHierarchyData::SerialInterface {
  std::vector<unsigned char> b;
  int calls = 0; // an object handed to deserialise is fresh
  size_t get_num_bytes() const override { return b.size(); }
  void serialise(std::byte *p, size_t n) const override { NPV_CHECK(n == b.size(), "space for the object"); std::memcpy(p, b.data(), n); }
  void deserialise(const std::byte *p, size_t n) override { NPV_CHECK(!calls++, "deserialised once"); b.resize(n); std::memcpy(b.data(), p, n); }
  bool operator==(const Obj &o) const { return b == o.b; }
  bool operator<(const Obj &o) const { return b < o.b; }
};
Obj draw_obj() { Obj o; o.b.resize(npv::uni(0, 2) ? npv::uni(0, 40) : 0); for (auto &x : o.b) x = (unsigned char)npv::uni(0, npv::uni(0, 1) ? 255 : 1); return o; }
std::vector<Obj> draw_objs(int n) { std::vector<Obj> v; for (int k = (int)npv::uni(0, n); k--;) v.push_back(draw_obj()); return v; }
} // namespace
NPV_BOUNDED(serial_container, 300, 1) {
  using C = MeshHierarchyData::SerialContainer<Obj>;
  C c; std::vector<Obj> all, out = draw_objs(4);
  if (npv::uni(0, 1)) { all = draw_objs(8); c = C(all); }
  for (int k = (int)npv::uni(0, 5); k--;) {
    auto v = draw_objs(6);
    C d(v);
    size_t bytes = 0; for (auto &o : v) bytes += o.b.size() + sizeof(size_t);
    NPV_CHECK(d.buffer.size() == bytes, "an entry per object");
    auto keep = d.buffer;
    c.append(d);
    NPV_CHECK(d.buffer == keep, "the appended container is not modified");
    all.insert(all.end(), v.begin(), v.end());
  }
  for (int k = 0; k < 2; k++) { c.get(out); NPV_CHECK(out == all, "the objects in order"); }
  C e(c.buffer.size());
  std::copy(c.buffer.begin(), c.buffer.end(), e.buffer.begin());
  e.get(out);
  NPV_CHECK(out == all, "the objects in order from a copy of the bytes");
}
NPV_BOUNDED(mesh_container, 150, 4) {
  int P, me; MPI_Comm_size(MPI_COMM_WORLD, &P); MPI_Comm_rank(MPI_COMM_WORLD, &me);
  const int nd = (int)npv::uni(1, 3);
  std::vector<int> dims; for (int i = 0; i < nd; i++) dims.push_back((int)npv::uni(1, 4));
  auto m = std::make_shared<MeshHierarchy>(MPI_COMM_WORLD, nd, dims, std::vector<double>(nd, 0.), 1., nd == 3 ? 0 : (int)npv::uni(0, 1));
  const INT N = m->ncells_global;
  std::vector<int> owner(N, -1);
  m->claim_initialise();
  for (INT c = 0; c < N; c++) { if (npv::uni(0, 5)) owner[c] = (int)npv::uni(0, P - 1); if (owner[c] == me) m->claim_cell(c, 1); }
  m->claim_finalise();
  std::vector<std::map<INT, std::vector<Obj>>> data(P);
  for (auto &d : data) for (INT c = 0; c < N; c++) if (npv::uni(0, 2) == 0) d[c] = draw_objs(4);
  using MC = MeshHierarchyData::MeshHierarchyContainer<Obj>;
  MC mc(m, data[me]);
  auto ref = [&](INT c) { std::vector<Obj> v; if (owner[c] >= 0) for (auto &d : data) if (d.count(c)) v.insert(v.end(), d[c].begin(), d[c].end()); std::sort(v.begin(), v.end()); return v; };
  std::set<INT> asked;
  for (int it = (int)npv::uni(1, 4); it--;) {
    std::vector<std::vector<INT>> want(P);
    for (auto &w : want) if (npv::uni(0, 3)) for (int k = (int)npv::uni(0, 8); k--;) w.push_back(npv::uni(0, N - 1));
    const auto w = want[me];
    mc.gather(w);
    asked.insert(w.begin(), w.end());
    for (INT c : asked) {
      auto v = draw_objs(2);
      mc.get(c, v);
      // per rank in order, ranks in any order
      size_t at = 0; auto s = v; std::sort(s.begin(), s.end());
      (void)at;
      NPV_CHECK(s == ref(c), "exactly the objects any rank stored in the cell");
      if (owner[c] < 0) continue;
      for (auto &d : data) if (d.count(c) && d[c].size()) {
        auto &q = d[c]; size_t j = 0;
        for (auto &o : v) if (j < q.size() && o == q[j]) j++;
        NPV_CHECK(j == q.size(), "the objects of one rank keep their order");
      }
    }
  }
  for (INT c = 0; c < N; c++) if (owner[c] == me) for (auto &d : data) if (d.count(c)) {
    std::vector<Obj> v; mc.get(c, v); std::sort(v.begin(), v.end());
    NPV_CHECK(v == ref(c), "the owner holds the objects of its cells"); break;
  }
  mc.free();
  m->free();
}
#endif
namespace {
struct Raw {
  size_t n = 0;
  size_t get_num_bytes() const { return n; }
  void serialise(std::byte *, size_t) const {}
  void deserialise(const std::byte *, size_t) {}
};
} // namespace
// The bytes of a container after another one is appended to it.
NPV_PROVE(append, 40) {
  const int64_t n = npv::sym("n", 1, 1 << 30), m = npv::sym("m", 1, 1 << 30);
  auto a = npv::array<uint8_t>("a", n, 0, 255), b = npv::array<uint8_t>("b", m, 0, 255);
  NESO::Particles::MeshHierarchyData::SerialContainer<Raw> x(n), y(m);
  std::memcpy(x.buffer.data(), a, n); std::memcpy(y.buffer.data(), b, m);
  x.append(y);
  NPV_CHECK((int64_t)x.buffer.size() == n + m, "the bytes of both");
  auto p = (uint8_t *)x.buffer.data(), q = (uint8_t *)y.buffer.data();
  NPV_FORALL(i, 0, n) NPV_CHECK(p[i] == a[i], "the bytes that were there");
  NPV_FORALL(i, 0, m) NPV_CHECK(p[n + i] == b[i], "the appended bytes after them");
  NPV_CHECK((int64_t)y.buffer.size() == m, "the appended container keeps its bytes");
  NPV_FORALL(i, 0, m) NPV_CHECK(q[i] == b[i], "the appended container keeps its bytes");
  NPV_REACH("appended");
}
namespace {
struct Three {
  int64_t v[3];
  size_t get_num_bytes() const { return sizeof(v); }
  void serialise(std::byte *p, size_t) const { for (int i = 0; i < 3; i++) ((int64_t *)p)[i] = v[i]; }
  void deserialise(const std::byte *p, size_t) { for (int i = 0; i < 3; i++) v[i] = ((const int64_t *)p)[i]; }
};
} // namespace
// Objects of one size: where each of them is in the bytes.
NPV_PROVE(serialised, 40) {
  const int64_t n = npv::sym("n", 2, 1 << 20);
  auto a = npv::array<int64_t>("a", n * 3);
  std::vector<Three> in(n);
  std::memcpy(in.data(), a, n * sizeof(Three));
  NESO::Particles::MeshHierarchyData::SerialContainer<Three> x(in);
  NPV_CHECK((int64_t)x.buffer.size() == n * 32, "a size and the bytes of every object");
  auto p = (int64_t *)x.buffer.data();
  NPV_FORALL(i, 0, n) {
    NPV_CHECK(p[i * 4] == 24, "the size of the object");
    for (int k = 0; k < 3; k++) NPV_CHECK(p[i * 4 + 1 + k] == a[i * 3 + k], "the bytes of the object");
  }
  NPV_REACH("serialised");
}
