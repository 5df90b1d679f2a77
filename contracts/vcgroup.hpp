// the properties of a group as the device code sees them: pointer map, numbering of components
#pragma once
#ifdef NPV_VC
using namespace NESO::Particles;
constexpr INT BIG = 1000000000;
struct Map1 : std::map<Sym<INT>, ParticleDatSharedPtr<INT>> { // one entry
  Map1(const Sym<INT> &k, ParticleDatSharedPtr<INT> v) {
    using N = std::_Rb_tree_node<value_type>;
    N *n = (N *)new npv::storage<N>();
    new ((void *)n->_M_valptr()) value_type(k, v);
    auto &h = this->_M_t._M_impl._M_header;
    n->_M_parent = &h; n->_M_left = n->_M_right = nullptr;
    h._M_parent = h._M_left = h._M_right = n;
    this->_M_t._M_impl._M_node_count = 1;
  }
};
// the numbering of the components of any number of properties
struct Layout {
  int64_t ndat, total;
  int *ncomp, *ex, *fd, *fc;
  int64_t comp(int64_t c) { // component c is component fc[c] of property fd[c]
    npv::assume(fd[c] < ndat);
    npv::assume(fc[c] < ncomp[fd[c]]);
    npv::assume(ex[fd[c]] + fc[c] == c);
    return c;
  }
};
#define LAYOUT(L, x) Layout L; L.ndat = npv::sym(x "dats", 1, 1 << 10); L.total = npv::sym(x "total", 1, 1 << 12); \
  L.ncomp = npv::array<int>(x "ncomp", L.ndat, 0, 1 << 12); L.ex = npv::array<int>(x "ex", L.ndat, 0, 1 << 12); \
  L.fd = npv::array<int>(x "fd", L.total, 0, 1 << 10); L.fc = npv::array<int>(x "fc", L.total, 0, 1 << 12)
struct Packed {
  Layout R, I;
  int64_t ncell, nrank;
  int *rows, *prows;
  REAL ****real; INT ****integer;
  npv::storage<ParticleGroupPointerMap> pm;
  npv::storage<ParticleDatT<INT>> rd;
  INT ***ranks;
  ParticleGroupPointerMap *map() {
    auto p = pm.get();
    auto d = rd.get();
    new ((void *)&d->sym) Sym<INT>("NESO_MPI_RANK");
    d->cell_dat.d_ptr = ranks;
    p->particle_dats_int = new Map1(Sym<INT>("NESO_MPI_RANK"), npv::raw(d));
    p->valid_const = true; p->valid = true;
    auto &c = p->h_cache_const;
    c.ncomp_total_real = (int)R.total; c.ncomp_total_int = (int)I.total;
    c.d_ncomp_exscan_real = R.ex; c.d_ncomp_exscan_int = I.ex;
    c.d_flattened_dat_index_real = R.fd; c.d_flattened_dat_index_int = I.fd;
    c.d_flattened_comp_index_real = R.fc; c.d_flattened_comp_index_int = I.fc;
    c.d_ptr_real = (REAL *const *const **)real; c.d_ptr_int = (INT *const *const **)integer;
    p->num_real_bytes_per_particle = (int)(8 * R.total);
    p->num_bytes_per_particle = (int)(8 * R.total + 8 * I.total);
    return p;
  }
};
#endif
