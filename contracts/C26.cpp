// C26: reusable resources are never handed to two users at once
//@ opts: {"smallloops": 8, "symunroll": 8}
//@ assume: the two proved histories take, return, retake and release up to three resources; longer histories are covered by the bounded runs only
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
using namespace NESO::Particles;
#ifdef NPV_VC
struct Res { int64_t uses, cleaned, freed; };
struct ResI : ResourceStackInterface<Res> {
  int64_t made;
  Res *pool[4];
  std::shared_ptr<Res> construct() override { return std::shared_ptr<Res>(pool[made++]); }
  void free(std::shared_ptr<Res> &r) override { r->freed++; }
  void clean(std::shared_ptr<Res> &r) override { r->cleaned++; }
};
struct Stack : ResourceStack<Res> { // access to the protected members; the constructor is not run
  void init(ResI *i) {
    new ((void *)&this->stack) std::stack<std::shared_ptr<Res>>();
    new ((void *)&this->resource_stack_interface) std::shared_ptr<ResourceStackInterface<Res>>(std::shared_ptr<void>(), i);
    this->num_managed_objects = 0;
  }
};
// one user's operation at a time, chosen at will: get (0) or restore the oldest (1) or the newest (2) in use
template <bool first> static void history() {
  npv::storage<Stack> st;
  npv::storage<ResI> is;
  ResI *I = new (is.get()) ResI();
  I->made = 0;
  for (auto &p : I->pool) p = new Res{0, 0, 0};
  Stack *S = st.get();
  S->init(I);
  auto a = S->get(), b = S->get();
  NPV_CHECK(a.get() != b.get() && a && b, "a resource in use is given to nobody else");
  Res *pa = a.get(), *pb = b.get();
  NPV_CHECK(a.use_count() == 1 && b.use_count() == 1, "nobody else holds a resource that is handed out");
  if (first) S->restore(a); else S->restore(b);
  NPV_CHECK((first ? a : b) == nullptr, "the user's pointer is taken away");
  NPV_CHECK(pa->cleaned == (first ? 1 : 0) && pb->cleaned == (first ? 0 : 1), "a resource is cleaned when it is returned");
  auto c = S->get();
  NPV_CHECK(c.get() == (first ? pa : pb) && I->made == 2, "returned resources are reused");
  auto d = S->get();
  NPV_CHECK(d.get() != pa && d.get() != pb && I->made == 3, "a resource in use is given to nobody else");
  Res *pd = d.get();
  S->restore(d); S->restore(c);
  if constexpr (first) S->restore(b); else S->restore(a);
  NPV_CHECK(pa->freed == 0 && pb->freed == 0 && pd->freed == 0, "no resource is released early");
  S->ResourceStack<Res>::free();
  NPV_CHECK(pa->freed == 1 && pb->freed == 1 && pd->freed == 1, "the stack releases each resource once");
  NPV_CHECK(S->stack.empty(), "a released resource is not handed out");
  NPV_REACH("end");
}
NPV_PROVE(restore_first, 1) { history<true>(); }
NPV_PROVE(restore_second, 1) { history<false>(); }
#endif
#ifndef NPV_VC
#include <neso_particles/particle_group_temporary.hpp>
#include "group.hpp"
struct Res { int id, cleaned, freed, dirty; };
struct Log { int made = 0, cleaned = 0; std::map<int, int> freed; };
struct Key0 {}; struct Key1 {}; struct Key2 {};
struct ResI : ResourceStackInterface<Res> {
  std::shared_ptr<Log> log;
  ResI(std::shared_ptr<Log> l) : log(l) {}
  std::shared_ptr<Res> construct() override { return std::make_shared<Res>(Res{log->made++, 0, 0, 0}); }
  void free(std::shared_ptr<Res> &r) override { log->freed[r->id]++; }
  void clean(std::shared_ptr<Res> &r) override { log->cleaned++; r->dirty = 0; }
};
NPV_BOUNDED(stack, 400, 1) {
  auto log = std::make_shared<Log>();
  std::map<int, int> want;
  {
    auto s = create_resource_stack<Res, ResI>(log);
    std::map<int, std::shared_ptr<Res>> out;
    const int ops = (int)npv::sym("ops", 0, 60, 60);
    int maxout = 0, restored = 0;
    auto give_back = [&] {
      auto it = out.begin();
      std::advance(it, npv::uni(0, (INT)out.size() - 1));
      auto r = it->second;
      if (npv::uni(0, 5) == 0) {
        NPV_CHECK(npv::expect_assert([&] { auto q = it->second; s->restore(q); }), "a resource that is still referenced is not taken back");
        NPV_CHECK(npv::expect_assert([&] { std::shared_ptr<Res> z; s->restore(z); }), "a null resource is not taken back");
      }
      out.erase(it);
      s->restore(r);
      restored++;
      NPV_CHECK(r == nullptr, "the user's pointer is taken away");
      NPV_CHECK(log->cleaned == restored, "a resource is cleaned when it is returned");
    };
    for (int o = 0; o < ops; o++) {
      if (out.empty() || npv::uni(0, 2)) {
        auto r = s->get();
        NPV_CHECK(r && !out.count(r->id), "a resource in use is given to nobody else");
        NPV_CHECK(r->dirty == 0, "a resource is handed out clean");
        r->dirty = 1;
        NPV_CHECK(r.use_count() == 1, "nobody else holds a resource that is handed out");
        out[r->id] = r;
        maxout = std::max<int>(maxout, (int)out.size());
      } else give_back();
      NPV_CHECK(log->made == maxout, "returned resources are reused");
    }
    if (!out.empty()) NPV_CHECK(npv::expect_assert([&] { s->free(); }), "the stack is not released while a resource is in use");
    while (!out.empty()) give_back();
    NPV_CHECK(log->freed.empty(), "no resource is released early");
    if (npv::uni(0, 1)) {
      s->free();
      NPV_CHECK((int)log->freed.size() == log->made, "the stack releases each resource");
      if (npv::uni(0, 1)) { auto r = s->get(); NPV_CHECK(r->id == maxout && !log->freed.count(r->id), "a released resource is not handed out"); s->restore(r); }
    }
  }
  NPV_CHECK((int)log->freed.size() == log->made, "the stack releases each resource");
  for (auto &kv : log->freed) NPV_CHECK(kv.second == 1, "the stack releases each resource once");
}
template <typename K> static std::shared_ptr<Res> mget(std::shared_ptr<ResourceStackMap> m, std::shared_ptr<Log> l) { return get_resource<Res, ResI>(m, K{}, l); }
NPV_BOUNDED(temporary_groups, 120, 1) {
  gp::World w;
  w.history(1);
  auto A = w.A;
  struct Held { ParticleGroupSharedPtr g; std::vector<std::vector<gp::Particle>> L; };
  std::vector<Held> held;
  auto spec = [](ParticleGroupSharedPtr g) {
    std::map<std::string, int> m;
    for (auto &[q, d] : g->particle_dats_real) m["r" + q.name] = d->ncomp;
    for (auto &[q, d] : g->particle_dats_int) m["i" + q.name] = d->ncomp;
    return m;
  };
  for (int it = (int)npv::uni(2, 9); it--;) {
    switch (npv::uni(0, 3)) {
    case 0: case 1: {
      auto t = ParticleGroupTemporary{}.get(A);
      NPV_CHECK(t != A && t->get_npart_local() == 0, "a temporary group is another group and empty");
      for (auto &h : held) NPV_CHECK(t != h.g, "a temporary group is given to one user");
      NPV_CHECK(spec(t) == spec(A), "a temporary group has the properties of the group");
      if (npv::uni(0, 3)) t->add_particles_local(w.pset(w.draw((int)npv::uni(0, 20)), w.spec));
      held.push_back({t, gp::layers(t)});
      break;
    }
    case 2: if (held.size()) {
      const size_t k = npv::uni(0, held.size() - 1);
      ParticleGroupTemporary{}.restore(A, held[k].g);
      held.erase(held.begin() + k);
      break;
    } [[fallthrough]];
    default: w.random_op();
    }
    for (auto &h : held) NPV_CHECK(gp::layers(h.g) == h.L, "a group that was taken is its user's alone");
  }
  for (auto &h : held) ParticleGroupTemporary{}.restore(A, h.g);
}
NPV_BOUNDED(map, 300, 1) {
  auto m = std::make_shared<ResourceStackMap>();
  std::shared_ptr<Log> l[3];
  for (auto &x : l) x = std::make_shared<Log>();
  std::vector<std::pair<int, std::shared_ptr<Res>>> out;
  const int ops = (int)npv::sym("ops", 0, 60, 60);
  bool used[3] = {false, false, false};
  for (int o = 0; o < ops; o++) {
    if (out.empty() || npv::uni(0, 2)) {
      const int k = (int)npv::uni(0, 2);
      auto r = k == 0 ? mget<Key0>(m, l[0]) : k == 1 ? mget<Key1>(m, l[1]) : mget<Key2>(m, l[2]);
      used[k] = true;
      for (auto &x : out) NPV_CHECK(x.second != r, "a resource in use is given to nobody else");
      NPV_CHECK(r->id < l[k]->made, "a key's resources come from its own stack");
      NPV_CHECK(r.use_count() == 1, "nobody else holds a resource that is handed out");
      out.push_back({k, r});
    } else {
      const size_t i = (size_t)npv::uni(0, (INT)out.size() - 1);
      auto e = out[i]; out[i].second = nullptr;
      out.erase(out.begin() + i);
      if (e.first == 0) restore_resource(m, Key0{}, e.second);
      else if (e.first == 1) restore_resource(m, Key1{}, e.second);
      else restore_resource(m, Key2{}, e.second);
      NPV_CHECK(e.second == nullptr, "the user's pointer is taken away");
    }
    NPV_CHECK(m->exists(Key0{}) == used[0] && m->exists(Key1{}) == used[1] && m->exists(Key2{}) == used[2], "a key exists once it has been used");
    int n[3] = {0, 0, 0};
    for (auto &x : out) n[x.first]++;
    for (int k = 0; k < 3; k++) NPV_CHECK(n[k] <= l[k]->made, "a key's resources come from its own stack");
  }
  for (auto &e : out) { auto r = e.second; e.second = nullptr; if (e.first == 0) restore_resource(m, Key0{}, r); else if (e.first == 1) restore_resource(m, Key1{}, r); else restore_resource(m, Key2{}, r); }
  m->free();
  for (auto &x : l) {
    NPV_CHECK((int)x->freed.size() == x->made, "the stack releases each resource");
    for (auto &kv : x->freed) NPV_CHECK(kv.second == 1, "the stack releases each resource once");
  }
  NPV_CHECK(!m->exists(Key0{}) && !m->exists(Key1{}), "no key exists after the stacks are released");
}
#endif
