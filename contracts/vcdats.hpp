// the properties of a group by name: maps of no or one property
#pragma once
#ifdef NPV_VC
using namespace NESO::Particles;
constexpr INT BIG = 1000000000;
template <typename K, typename V> struct Map2 : std::map<K, V> { // no or one entry
  Map2() {
    auto &h = this->_M_t._M_impl._M_header;
    h._M_parent = nullptr; h._M_left = h._M_right = &h;
    this->_M_t._M_impl._M_node_count = 0;
  }
  Map2(const K &k, V v) {
    using N = std::_Rb_tree_node<typename std::map<K, V>::value_type>;
    N *n = (N *)new npv::storage<N>();
    new ((void *)n->_M_valptr()) typename std::map<K, V>::value_type(k, v);
    auto &h = this->_M_t._M_impl._M_header;
    n->_M_parent = &h; n->_M_left = n->_M_right = nullptr;
    h._M_parent = h._M_left = h._M_right = n;
    this->_M_t._M_impl._M_node_count = 1;
  }
};
template <typename T> static ParticleDatT<T> *dat(npv::storage<ParticleDatT<T>> &s, const char *name, T ***p, int ncomp) {
  auto d = s.get();
  new ((void *)&d->sym) Sym<T>(name);
  const_cast<int &>(d->ncomp) = ncomp;
  d->cell_dat.d_ptr = p;
  return d;
}
// the maps of the properties of a group: one property or none
template <typename T> static void set_dats(ParticleGroup *A, ParticleDatT<T> *d) {
  using R = Map2<Sym<REAL>, ParticleDatSharedPtr<REAL>>;
  using I = Map2<Sym<INT>, ParticleDatSharedPtr<INT>>;
  new ((void *)&A->particle_dats_real) R();
  new ((void *)&A->particle_dats_int) I();
  if (!d) return;
  if constexpr (std::is_same_v<T, REAL>) new ((void *)&A->particle_dats_real) R(d->sym, npv::raw(d));
  else new ((void *)&A->particle_dats_int) I(d->sym, npv::raw(d));
}
#endif
