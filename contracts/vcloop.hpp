// Contract of particle_loop, used to verify the functions that call it: executing
// the loop applies the kernel to every particle of the iteration set, each time
// with accessors of that particle's data (C04 and C05 are about particle_loop
// itself). A function under verification is included below its callee's contract:
//   #define particle_loop npv::loop::particle_loop_contract
//   #include "src/....cpp"
// The contract applies the kernel to one arbitrary particle, `at`, chosen by the
// contract of the caller. Where visits interact through atomic counters, the caller
// gives the state which the visits of other particles leave (NPV_LOOP_STATE).
#pragma once
#ifdef NPV_VC
namespace npv::loop {
using namespace NESO::Particles;
namespace PLI = NESO::Particles::ParticleLoopImplementation;
struct st {
  int64_t cell, layer, loop_layer;
  int applied;
  std::string rn[12], in[12];
  REAL ***rd[12];
  INT ***id[12];
  int nr, ni;
  PLI::ParticleLoopIndexKernelT index; // the tables of the loop index
  // for loops whose particles interact through counters: particles visited, and
  // the state the visits of other particles leave before and after each visit
  int n;
  int64_t at[4][3];
  void (*before)(int loop, int particle);
  void (*after)(int loop, int particle);
};
inline st *S; // the harness allocates it: globals of the verified code are not initialised
inline void begin(int64_t cell, int64_t layer, int64_t loop_layer) {
  S = new st();
  S->cell = cell; S->layer = layer; S->loop_layer = loop_layer; S->applied = 0; S->nr = S->ni = 0; S->before = S->after = nullptr;
  S->n = 1; S->at[0][0] = cell; S->at[0][1] = layer; S->at[0][2] = loop_layer;
}
inline void bind(const Sym<REAL> &s, REAL ***d) { S->rn[S->nr] = s.name; S->rd[S->nr++] = d; }
inline void bind(const Sym<INT> &s, INT ***d) { S->in[S->ni] = s.name; S->id[S->ni++] = d; }
inline REAL ***find(const Sym<REAL> &s) { for (int k = 0; k < S->nr; k++) if (S->rn[k] == s.name) return S->rd[k]; __npv_check(false, "the loop uses a property of the particle"); return nullptr; }
inline INT ***find(const Sym<INT> &s) { for (int k = 0; k < S->ni; k++) if (S->in[k] == s.name) return S->id[k]; __npv_check(false, "the loop uses a property of the particle"); return nullptr; }
template <typename T> T *const *const *rhs(const Access::Read<Sym<T>> &a) { return find(a.obj); }
template <typename T> T ***rhs(const Access::Write<Sym<T>> &a) { return find(a.obj); }
template <typename T> T *const *const *rhs(const Access::Read<std::shared_ptr<ParticleDatT<T>>> &a) { return find(a.obj->sym); }
template <typename T> T ***rhs(const Access::Write<std::shared_ptr<ParticleDatT<T>>> &a) { return find(a.obj->sym); }
template <typename T> T const *rhs(const Access::Read<std::shared_ptr<LocalArray<T>>> &a) { return a.obj->buffer->ptr; }
template <typename T> T *rhs(const Access::Write<std::shared_ptr<LocalArray<T>>> &a) { return a.obj->buffer->ptr; }
template <typename T> T *rhs(const Access::Add<std::shared_ptr<LocalArray<T>>> &a) { return a.obj->buffer->ptr; }
inline PLI::ParticleLoopIndexKernelT rhs(const Access::Read<ParticleLoopIndex> &) { return S->index; }
template <typename A> auto arg(PLI::ParticleLoopIteration &it, A a) {
  typename PLI::KernelParameter<A>::type p;
  auto r = rhs(a);
  PLI::create_kernel_arg(it, r, p);
  return p;
}
struct handle {
  void execute() {}
  handle *operator->() { return this; }
  operator ParticleLoopSharedPtr() { return ParticleLoopSharedPtr(); }
};
template <typename K, typename... A> handle apply(K k, A... a) {
  const int loop = S->applied++;
  PLI::ParticleLoopIteration it;
  it.local_sycl_index = 0; it.local_sycl_range = 1;
#ifdef NPV_LOOP_STATE
  for (int j = 0; j < S->n; j++) {
    it.cellx = (int)S->at[j][0]; it.layerx = (int)S->at[j][1]; it.loop_layerx = (int)S->at[j][2];
    if (S->before) S->before(loop, j);
    k(arg(it, a)...);
    if (S->after) S->after(loop, j);
  }
#else
  it.cellx = (int)S->cell; it.layerx = (int)S->layer; it.loop_layerx = (int)S->loop_layer;
  k(arg(it, a)...);
#endif
  (void)loop;
  return handle();
}
template <typename G, typename K, typename... A> handle particle_loop_contract(const char *, std::shared_ptr<G>, K k, A... a) { return apply(k, a...); }
template <typename G, typename K, typename... A> handle particle_loop_contract(std::shared_ptr<G>, K k, A... a) { return apply(k, a...); }
// the class, where a function under verification constructs it
struct ParticleLoopContract {
  template <typename G, typename K, typename... A> ParticleLoopContract(const char *, std::shared_ptr<G> &, K k, A... a) { npv::loop::apply(k, a...); }
  void execute() {}
  void execute(int) {}
};
} // namespace npv::loop
#endif
