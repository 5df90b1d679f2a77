// C20: array and cell-data containers read back what was stored
//@ opts: {"smallloops": 8, "symunroll": 8}
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
#ifndef NPV_VC
#include "group.hpp"
#endif
using namespace NESO::Particles;
#ifdef NPV_VC
// the host and device ends of a buffer: any contents, any change of size
template <typename B> static void buffer_resize(bool shrink) {
  auto t = h_target();
  const int64_t n = npv::sym("n", 1, 1 << 26), m = npv::sym("m", 0, 1 << 26), i = npv::sym("i", 0, 1 << 26);
  npv::assume(i < n);
  npv::storage<B> st;
  B *b = new (st.get()) B(t, (size_t)n);
  INT *d = npv::array<INT>("d", n, -1000000, 1000000);
  b->ptr = d; // any contents
  const INT old = b->ptr[i];
  if (shrink) { const REAL f = npv::symf("factor", 1.0, 1e6); b->realloc((size_t)m, f); } else b->realloc((size_t)m);
  NPV_CHECK((int64_t)b->size >= m, "a resized buffer holds the elements asked for");
  NPV_CHECK(!(i < (int64_t)b->size) || b->ptr[i] == old, "resizing a buffer keeps the elements that remain");
  NPV_CHECK(shrink || (int64_t)b->size >= n, "a buffer does not shrink unless asked to");
  NPV_REACH("end");
}
NPV_PROVE(device_buffer_resize, 1) { buffer_resize<BufferDevice<INT>>(false); }
NPV_PROVE(device_buffer_resize_factor, 1) { buffer_resize<BufferDevice<INT>>(true); }
NPV_PROVE(host_buffer_resize, 1) { buffer_resize<BufferHost<INT>>(false); }
NPV_PROVE(host_buffer_resize_factor, 1) { buffer_resize<BufferHost<INT>>(true); }
NPV_PROVE(device_host_buffer, 1) {
  auto t = h_target();
  const int64_t n = npv::sym("n", 1, 1 << 26), i = npv::sym("i", 0, 1 << 26), j = npv::sym("j", 0, 1 << 26), k = npv::sym("k", 1, 1 << 26);
  const INT v = npv::sym("v", -1000000, 1000000), w = npv::sym("w", -1000000, 1000000);
  npv::assume(i < n && j < n && k <= n);
  npv::storage<BufferDeviceHost<INT>> st;
  auto b = new (st.get()) BufferDeviceHost<INT>(t, (size_t)n);
  b->h_buffer.ptr = npv::array<INT>("h", n, -1000000, 1000000);
  b->d_buffer.ptr = npv::array<INT>("d", n, -1000000, 1000000);
  b->h_buffer.ptr[i] = v;
  b->host_to_device();
  NPV_CHECK(b->d_buffer.ptr[i] == v && b->d_buffer.ptr[j] == b->h_buffer.ptr[j], "the device has what the host stored");
  b->d_buffer.ptr[i] = w;
  const INT hj = b->h_buffer.ptr[j], dj = b->d_buffer.ptr[j];
  b->device_to_host((size_t)k);
  NPV_CHECK(b->h_buffer.ptr[j] == (j < k ? dj : hj), "the host has what the device stored in the elements copied");
  b->device_to_host();
  NPV_CHECK(b->h_buffer.ptr[j] == dj && b->h_buffer.ptr[i] == w, "the host has what the device stored");
  NPV_REACH("end");
}
// a vector of any length and contents
struct Vec : std::vector<INT> {
  Vec(const char *nm, int64_t n) { INT *p = npv::array<INT>(nm, n, -1000000, 1000000); this->_M_impl._M_start = p; this->_M_impl._M_finish = p + n; this->_M_impl._M_end_of_storage = p + n; }
};
template <typename A> static void array_io(A *a, int64_t n, int64_t i) {
  auto in = new Vec("in", n); // not destroyed
  auto out = new Vec("out", n);
  const INT f = npv::sym("f", -1000000, 1000000);
  a->fill(f);
  a->get(*out);
  NPV_CHECK((*out)[i] == f, "a filled array returns the value");
  a->set(*in);
  a->get(*out);
  NPV_CHECK((*out)[i] == (*in)[i], "an array returns what was stored");
}
NPV_PROVE(local_array, 1) {
  auto t = h_target();
  const int64_t n = npv::sym("n", 1, 1 << 26), i = npv::sym("i", 0, 1 << 26);
  npv::assume(i < n);
  npv::storage<LocalArray<INT>> st;
  auto a = new (st.get()) LocalArray<INT>(t, (size_t)n);
  NPV_CHECK(a->buffer->ptr[i] == 0, "a new array is zero");
  array_io(a, n, i);
  NPV_REACH("end");
}
NPV_PROVE(nd_local_array, 1) {
  auto t = h_target();
  const int64_t n0 = npv::sym("n0", 1, 1 << 9), n1 = npv::sym("n1", 1, 1 << 9), n2 = npv::sym("n2", 1, 1 << 9);
  const int64_t n = n0 * n1 * n2;
  npv::storage<NDLocalArray<INT, 3>> st;
  auto a = new (st.get()) NDLocalArray<INT, 3>(t, (int)n0, (int)n1, (int)n2);
  NPV_CHECK(a->index.size() == n, "the size of an array is the product of its shape");
  const int64_t x[3] = {npv::sym("x0", 0, 1 << 9), npv::sym("x1", 0, 1 << 9), npv::sym("x2", 0, 1 << 9)}, y[3] = {npv::sym("y0", 0, 1 << 9), npv::sym("y1", 0, 1 << 9), npv::sym("y2", 0, 1 << 9)};
  npv::assume(x[0] < n0 && x[1] < n1 && x[2] < n2 && y[0] < n0 && y[1] < n1 && y[2] < n2);
  const INT i = a->index.get_linear_index(x[0], x[1], x[2]), j = a->index.get_linear_index(y[0], y[1], y[2]);
  NPV_CHECK(0 <= i && i < n, "a linear index is in the array");
  NPV_CHECK((x[0] == y[0] && x[1] == y[1] && x[2] == y[2]) || i != j, "different elements have different linear indices");
  array_io(a, n, i);
  NPV_REACH("end");
}
// two cells and two columns, any number of rows, any history of three resizes
template <int C, bool FRESH> static void cell_dat() {
  auto t = h_target();
  npv::storage<CellDat<INT>> st;
  auto d = new (st.get()) CellDat<INT>(t, 2, 2);
  int64_t n[4];
  for (auto &x : n) x = npv::sym("n", FRESH ? 1 : 0, 1 << 20);
  if (!FRESH) { d->set_nrow(0, 1); d->set_nrow(1, 1); d->wait_set_nrow(); }
  d->set_nrow(0, n[0]); d->set_nrow(1, n[1]); d->wait_set_nrow();
  d->set_nrow(C, n[2]); d->wait_set_nrow();
  INT ***p = d->device_ptr();
  const int64_t r = npv::sym("r", 0, 1 << 20), q = npv::sym("q", 0, 1 << 20), s = npv::sym("s", 0, 1 << 20);
  npv::assume(r < n[2] && q < n[1 - C]);
  const INT v = npv::sym("v", -1000000, 1000000), u = npv::sym("u", -1000000, 1000000), w = npv::sym("w", -1000000, 1000000);
  d->set_value(C, (int)r, 0, v); d->set_value(C, (int)r, 1, w); d->set_value(1 - C, (int)q, 1, u);
  NPV_CHECK(d->get_value(C, (int)r, 0) == v && d->get_value(C, (int)r, 1) == w && d->get_value(1 - C, (int)q, 1) == u, "a value is read back as stored");
  NPV_CHECK(p[C][0][r] == v && p[C][1][r] == w && p[1 - C][1][q] == u, "the device sees the values stored");
  d->set_nrow(C, n[3]); d->wait_set_nrow();
  NPV_CHECK(d->nrow[C] == n[3] && d->nrow[1 - C] == n[1 - C], "a cell has the rows asked for");
  NPV_CHECK(d->nrow_alloc[C] >= n[3], "a cell has room for its rows");
  if (r < n[3]) {
    NPV_CHECK(d->get_value(C, (int)r, 0) == v && d->get_value(C, (int)r, 1) == w, "resizing keeps the rows that remain");
    NPV_CHECK(p[C][0][r] == v && p[C][1][r] == w, "the device sees the rows that remain");
  }
  NPV_CHECK(d->get_value(1 - C, (int)q, 1) == u && p[1 - C][1][q] == u, "resizing a cell touches no other");
  if (s < n[3]) {
    d->set_value(C, (int)s, 1, u);
    NPV_CHECK(p[C][1][s] == u, "the device sees the values stored");
    NPV_CHECK(!(r < n[3]) || d->get_value(C, (int)r, 0) == v, "storing a value touches no other");
  }
  NPV_REACH("end");
}
NPV_PROVE(cell_dat_first, 1) { cell_dat<0, false>(); }
NPV_PROVE(cell_dat_second, 1) { cell_dat<1, false>(); }
NPV_PROVE(cell_dat_first_fresh, 1) { cell_dat<0, true>(); }
NPV_PROVE(cell_dat_second_fresh, 1) { cell_dat<1, true>(); }
NPV_PROVE(cell_dat_const, 1) {
  auto t = h_target();
  const int64_t nc = npv::sym("nc", 1, 1 << 9), nr = npv::sym("nr", 1, 1 << 9), nk = npv::sym("nk", 1, 1 << 9);
  npv::storage<CellDatConst<INT>> st;
  auto d = new (st.get()) CellDatConst<INT>(t, (int)nc, (int)nr, (int)nk);
  const int64_t c = npv::sym("c", 0, 1 << 9), r = npv::sym("r", 0, 1 << 9), k = npv::sym("k", 0, 1 << 9), c2 = npv::sym("c2", 0, 1 << 9), r2 = npv::sym("r2", 0, 1 << 9), k2 = npv::sym("k2", 0, 1 << 9);
  npv::assume(c < nc && r < nr && k < nk && c2 < nc && r2 < nr && k2 < nk);
  NPV_CHECK(d->get_value((int)c, (int)r, (int)k) == 0, "new data is zero");
  const INT v = npv::sym("v", -1000000, 1000000), u = npv::sym("u", -1000000, 1000000);
  d->fill(u);
  NPV_CHECK(d->get_value((int)c, (int)r, (int)k) == u, "filled data returns the value");
  d->set_value((int)c, (int)r, (int)k, v);
  NPV_CHECK(d->get_value((int)c, (int)r, (int)k) == v, "a value is read back as stored");
  NPV_CHECK((c2 == c && r2 == r && k2 == k) || d->get_value((int)c2, (int)r2, (int)k2) == u, "storing a value touches no other");
  NPV_CHECK(d->device_ptr()[d->idx((int)c, (int)r, (int)k)] == v, "the device sees the values stored");
  NPV_REACH("end");
}
#else
using W = gp::World;
// histories of one container against a reference held by the harness
template <typename T> static T val() { return (T)npv::uni(-1000, 1000); }
template <typename T> static std::vector<T> vals(int64_t n) { std::vector<T> v(n); for (auto &x : v) x = val<T>(); return v; }
template <typename B> static void buffer_history() {
  auto t = h_target();
  B b(t, (size_t)npv::sym("n", 1, 40, 40)); // only an allocated buffer may be resized (asserted by the library)
  std::vector<INT> ref(b.size);
  auto store = [&] { // any contents
    for (size_t i = 0; i < b.size; i++) ref[i] = val<INT>();
    if (b.size) t->queue.memcpy(b.ptr, ref.data(), b.size * sizeof(INT)).wait_and_throw();
  };
  auto same = [&] {
    NPV_CHECK(b.size == ref.size() && b.size_bytes() == ref.size() * sizeof(INT), "a buffer knows its size");
    std::vector<INT> got(ref.size());
    if (b.size) t->queue.memcpy(got.data(), b.ptr, b.size * sizeof(INT)).wait_and_throw();
    NPV_CHECK(got == ref, "a buffer returns what was stored");
    NPV_CHECK(b.get() == ref, "a buffer returns what was stored");
  };
  store();
  const int k = (int)npv::sym("ops", 1, 25, 25);
  for (int o = 0; o < k; o++) {
    const size_t m = (size_t)npv::uni(0, 3) ? npv::uni(0, 60) : 0, was = b.size;
    const REAL f = (REAL)npv::uni(2, 10) / 2;
    switch (npv::uni(0, 4)) {
    case 0: b.realloc(m); NPV_CHECK(b.size >= was && b.size >= m, "a buffer does not shrink unless asked to"); ref.resize(b.size, 0);
      for (size_t i = was; i < b.size; i++) t->queue.memcpy(b.ptr + i, &ref[i], sizeof(INT)).wait_and_throw(); break;
    case 1: b.realloc(m, f); NPV_CHECK(b.size >= m, "a resized buffer holds the elements asked for"); ref.resize(b.size, 0);
      NPV_CHECK(m == 0 || m > was || b.size <= std::max(m, (size_t)(f * (REAL)m)), "a buffer asked to is not much larger than needed");
      for (size_t i = was; i < b.size; i++) t->queue.memcpy(b.ptr + i, &ref[i], sizeof(INT)).wait_and_throw(); break;
    case 2: b.realloc_no_copy(m); NPV_CHECK(b.size >= was && b.size >= m, "a resized buffer holds the elements asked for"); ref.resize(b.size); store(); break;
    case 3: b.realloc_no_copy(m, f); NPV_CHECK(b.size >= m, "a resized buffer holds the elements asked for"); ref.resize(b.size); store(); break;
    default: { auto v = vals<INT>(npv::uni(0, (int64_t)b.size)); b.set(v); std::copy(v.begin(), v.end(), ref.begin()); }
    }
    same();
  }
}
NPV_BOUNDED(device_buffer, 80, 1) { buffer_history<BufferDevice<INT>>(); }
NPV_BOUNDED(host_buffer, 80, 1) { buffer_history<BufferHost<INT>>(); }
NPV_BOUNDED(device_host_buffers, 80, 1) {
  auto t = h_target();
  const int64_t n = npv::sym("n", 1, 40, 40);
  BufferDeviceHost<INT> b(t, (size_t)n);
  std::vector<INT> h(n), d(n);
  const int k = (int)npv::sym("ops", 1, 25, 25);
  for (int64_t i = 0; i < n; i++) b.h_buffer.ptr[i] = h[i] = val<INT>();
  b.host_to_device(); d = h;
  for (int o = 0; o < k; o++) {
    switch (npv::uni(0, 4)) {
    case 0: for (auto &x : h) if (npv::uni(0, 1)) x = val<INT>(); std::copy(h.begin(), h.end(), b.h_buffer.ptr); break;
    case 1: b.host_to_device(); std::copy(h.begin(), h.end(), d.begin()); break;
    case 2: b.device_to_host(); h = d; break;
    case 3: { const int64_t m = npv::uni(0, (int64_t)h.size()); if (m) { b.device_to_host((size_t)m); std::copy(d.begin(), d.begin() + m, h.begin()); } break; }
    default: { b.realloc_no_copy((size_t)npv::uni(0, 60)); NPV_CHECK(b.h_buffer.size >= b.size && b.d_buffer.size >= b.size, "both ends of a buffer hold its elements");
      h = vals<INT>(b.size); std::copy(h.begin(), h.end(), b.h_buffer.ptr); b.host_to_device(); d = h; }
    }
    std::vector<INT> got(d.size());
    if (got.size()) t->queue.memcpy(got.data(), b.d_buffer.ptr, got.size() * sizeof(INT)).wait_and_throw();
    NPV_CHECK(got == d, "the device has what the host stored");
    NPV_CHECK(std::equal(h.begin(), h.end(), b.h_buffer.ptr), "the host has what the device stored");
  }
}
template <typename T> static void cell_dat_history() {
  auto t = h_target();
  const int nc = (int)npv::sym("nc", 1, 6), nk = (int)npv::sym("nk", 1, 4);
  CellDat<T> d(t, nc, nk);
  std::vector<std::vector<std::vector<T>>> ref(nc, std::vector<std::vector<T>>(nk)); // cell, column, row
  auto same = [&] {
    int mx = 0, mn = 1 << 30;
    for (int c = 0; c < nc; c++) {
      const int n = (int)ref[c][0].size();
      mx = std::max(mx, n); mn = std::min(mn, n);
      auto D = d.get_cell(c);
      NPV_CHECK(D->nrow == n && D->ncol == nk && d.nrow[c] == n, "a cell has the rows asked for");
      auto P = d.device_ptr();
      const int big = (int)npv::uni(0, 2);
      CellDataT<T> E(t, n + big, nk + big);
      EventStack es; d.get_cell_async(c, E, es); es.wait();
      BufferDeviceHost<T> o(t, (size_t)std::max(1, n * nk));
      T *q = o.d_buffer.ptr;
      t->queue.submit([&](sycl::handler &h) { h.single_task<>([=]() { for (int k = 0; k < nk; k++) for (int r = 0; r < n; r++) q[k * n + r] = P[c][k][r]; }); }).wait_and_throw();
      o.device_to_host();
      for (int k = 0; k < nk; k++) for (int r = 0; r < n; r++) {
        NPV_CHECK(D->at(r, k) == ref[c][k][r] && (*D)[k][r] == ref[c][k][r], "a cell is read back as stored");
        NPV_CHECK(E.at(r, k) == ref[c][k][r], "a cell is read back as stored into larger data");
        NPV_CHECK(d.get_value(c, r, k) == ref[c][k][r], "a value is read back as stored");
        NPV_CHECK(o.h_buffer.ptr[k * n + r] == ref[c][k][r], "the device sees the values stored");
      }
    }
    d.compute_nrow_max();
    NPV_CHECK(d.get_nrow_max() == mx && d.get_nrow_min() == mn, "the largest and smallest numbers of rows");
  };
  const int ops = (int)npv::sym("ops", 1, 30, 30);
  for (int o = 0; o < ops; o++) {
    const int c = (int)npv::uni(0, nc - 1), n = (int)ref[c][0].size();
    switch (npv::uni(0, 5)) {
    case 0: case 1: { // resizes of any cells, then one wait
      std::map<int, int> was;
      for (int m = (int)npv::uni(1, 3); m--;) {
        const int x = (int)npv::uni(0, nc - 1), to = (int)npv::uni(0, 25);
        if (!was.count(x)) was[x] = (int)ref[x][0].size();
        d.set_nrow(x, to);
        was[x] = std::min(was[x], to);
        for (auto &col : ref[x]) col.resize(to);
        d.wait_set_nrow();
      }
      for (auto &w : was) for (int k = 0; k < nk; k++) for (int r = w.second; r < (int)ref[w.first][k].size(); r++) d.set_value(w.first, r, k, ref[w.first][k][r] = val<T>());
      break; }
    case 2: case 3: { // whole cells, from data at least as large
      const int er = (int)npv::uni(0, 2), ek = (int)npv::uni(0, 2);
      auto D = std::make_shared<CellDataT<T>>(t, n + er, nk + ek);
      for (int k = 0; k < nk + ek; k++) for (int r = 0; r < n + er; r++) { D->at(r, k) = val<T>(); if (k < nk && r < n) ref[c][k][r] = D->at(r, k); }
      if (npv::uni(0, 1)) d.set_cell(c, D); else { EventStack es; d.set_cell_async(c, *D, es); es.wait(); }
      break; }
    case 4: if (n) { const int r = (int)npv::uni(0, n - 1), k = (int)npv::uni(0, nk - 1); d.set_value(c, r, k, ref[c][k][r] = val<T>()); } break;
    default: { std::vector<int> m(nc); for (int x = 0; x < nc; x++) { m[x] = (int)npv::uni(0, (int64_t)ref[x][0].size()); for (auto &col : ref[x]) col.resize(m[x]); } d.reduce_nrow(m.data()); }
    }
    same();
  }
}
NPV_BOUNDED(cell_dat_real, 60, 1) { cell_dat_history<REAL>(); }
NPV_BOUNDED(cell_dat_int, 60, 1) { cell_dat_history<INT>(); }
template <typename T> static void cell_dat_const_history() {
  auto t = h_target();
  const int nc = (int)npv::sym("nc", 1, 6), nr = (int)npv::sym("nr", 1, 5), nk = (int)npv::sym("nk", 1, 4);
  CellDatConst<T> d(t, nc, nr, nk);
  std::vector<T> ref(nc * nr * nk, 0); // cell, column, row
  auto at = [&](int c, int r, int k) -> T & { return ref[(c * nk + k) * nr + r]; };
  auto same = [&] {
    auto all = d.get_all_cells();
    NPV_CHECK((int)all.size() == nc, "as many cells as there are");
    for (int c = 0; c < nc; c++) {
      auto D = d.get_cell(c);
      NPV_CHECK(D->nrow == nr && D->ncol == nk && all[c]->nrow == nr && all[c]->ncol == nk, "a cell has its shape");
      for (int k = 0; k < nk; k++) for (int r = 0; r < nr; r++) {
        NPV_CHECK(D->at(r, k) == at(c, r, k), "a cell is read back as stored");
        NPV_CHECK(all[c]->at(r, k) == at(c, r, k), "all cells are read back as stored");
        NPV_CHECK(d.get_value(c, r, k) == at(c, r, k), "a value is read back as stored");
      }
    }
  };
  same();
  const int ops = (int)npv::sym("ops", 1, 25, 25);
  for (int o = 0; o < ops; o++) {
    const int c = (int)npv::uni(0, nc - 1), r0 = (int)npv::uni(0, nr - 1), k0 = (int)npv::uni(0, nk - 1);
    switch (npv::uni(0, 3)) {
    case 0: { const T v = val<T>(); d.fill(v); for (auto &x : ref) x = v; break; }
    case 1: { const int er = (int)npv::uni(0, 2), ek = (int)npv::uni(0, 2);
      auto D = std::make_shared<CellDataT<T>>(t, nr + er, nk + ek);
      for (int k = 0; k < nk + ek; k++) for (int r = 0; r < nr + er; r++) { D->at(r, k) = val<T>(); if (k < nk && r < nr) at(c, r, k) = D->at(r, k); }
      d.set_cell(c, D); break; }
    case 2: { std::vector<CellData<T>> v; for (int x = 0; x < nc; x++) { v.push_back(std::make_shared<CellDataT<T>>(t, nr, nk)); for (int k = 0; k < nk; k++) for (int r = 0; r < nr; r++) v[x]->at(r, k) = at(x, r, k) = val<T>(); }
      d.set_all_cells(v); break; }
    default: d.set_value(c, r0, k0, at(c, r0, k0) = val<T>());
    }
    same();
  }
}
NPV_BOUNDED(cell_dat_const_real, 60, 1) { cell_dat_const_history<REAL>(); }
NPV_BOUNDED(cell_dat_const_int, 60, 1) { cell_dat_const_history<INT>(); }
// arrays that particle loops write and add to, on every rank
template <typename T> static void local_history() {
  W w; w.history(2);
  auto A = w.A;
  int n = (int)w.lr.uni(0, 9);
  std::vector<T> ref(n, 0);
  auto L = std::make_shared<LocalArray<T>>(w.target, n);
  auto parts = gp::flat(gp::state(A));
  const int ops = (int)npv::uni(1, 12);
  for (int o = 0; o < ops; o++) {
    const int f = (int)npv::uni(-20, 20);
    switch (npv::uni(0, 5)) {
    case 0: L->fill((T)f); for (auto &x : ref) x = (T)f; break;
    case 1: { ref = vals<T>(n); if (npv::uni(0, 1)) L->set(ref); else L = std::make_shared<LocalArray<T>>(w.target, ref); break; }
    case 2: { L = std::make_shared<LocalArray<T>>(w.target, n, (T)f); ref.assign(n, (T)f); break; }
    case 3: if (n) { n = (int)w.lr.uni(1, 15); L->realloc_no_copy(n); L->fill((T)f); ref.assign(n, (T)f); break; }
    case 4: if (n) {
      particle_loop(A, [=](auto id, auto l) { l.fetch_add((int)(id.at(0) % n), (T)(id.at(0) % 7 + f)); }, Access::read(Sym<INT>("ID")), Access::add(L))->execute();
      for (auto &p : parts) ref[p.first % n] += (T)(p.first % 7 + f);
      } break;
    default: if (n) { // every particle stores the same value
      particle_loop(A, [=](auto id, auto l) { l.at((int)(id.at(0) % n)) = (T)(id.at(0) % n + f); }, Access::read(Sym<INT>("ID")), Access::write(L))->execute();
      for (auto &p : parts) ref[p.first % n] = (T)(p.first % n + f);
      } break;
    }
    NPV_CHECK(L->size == (size_t)n, "an array has its size");
    NPV_CHECK(L->get() == ref, "an array returns what was stored");
    std::vector<T> u(n); L->get(u);
    NPV_CHECK(u == ref, "an array returns what was stored");
    auto M = *L; // a shallow copy
    NPV_CHECK(M.get() == ref, "a copy of an array returns what was stored");
  }
}
NPV_BOUNDED(local_array_int, 40, 2) { local_history<INT>(); }
NPV_BOUNDED(local_array_real, 40, 2) { local_history<REAL>(); }
NPV_BOUNDED(nd_local_arrays, 40, 2) {
  W w; w.history(2);
  auto A = w.A;
  const int n0 = (int)w.lr.uni(1, 4), n1 = (int)w.lr.uni(1, 4), n2 = (int)w.lr.uni(1, 4), n = n0 * n1 * n2;
  auto L = std::make_shared<NDLocalArray<INT, 3>>(w.target, n0, n1, n2);
  std::vector<INT> ref(n, 0);
  auto parts = gp::flat(gp::state(A));
  const int ops = (int)npv::uni(1, 10);
  for (int o = 0; o < ops; o++) {
    const INT f = npv::uni(-20, 20);
    switch (npv::uni(0, 3)) {
    case 0: L->fill(f); for (auto &x : ref) x = f; break;
    case 1: ref = vals<INT>(n); L->set(ref); break;
    case 2:
      particle_loop(A, [=](auto id, auto l) { const INT i = id.at(0); l.fetch_add((int)(i % n0), (int)(i / 3 % n1), (int)(i / 5 % n2), i + f); }, Access::read(Sym<INT>("ID")), Access::add(L))->execute();
      for (auto &p : parts) { const INT i = p.first; ref[L->index.get_linear_index((int)(i % n0), (int)(i / 3 % n1), (int)(i / 5 % n2))] += i + f; }
      break;
    default:
      particle_loop(A, [=](auto id, auto l) { const INT i = id.at(0); l.at((int)(i % n0), (int)(i / 3 % n1), (int)(i / 5 % n2)) = i % n0 + f; }, Access::read(Sym<INT>("ID")), Access::write(L))->execute();
      for (auto &p : parts) { const INT i = p.first; ref[L->index.get_linear_index((int)(i % n0), (int)(i / 3 % n1), (int)(i / 5 % n2))] = i % n0 + f; }
    }
    NPV_CHECK(L->get() == ref, "an array returns what was stored");
    std::vector<INT> u(n); L->get(u);
    NPV_CHECK(u == ref, "an array returns what was stored");
  }
  // every element is reached by exactly one index
  std::set<INT> seen;
  for (int a = 0; a < n0; a++) for (int b = 0; b < n1; b++) for (int c = 0; c < n2; c++) seen.insert(L->index.get_linear_index(a, b, c));
  NPV_CHECK((int)seen.size() == n && *seen.begin() == 0 && *seen.rbegin() == n - 1, "different elements have different linear indices");
}
template <typename T> static void global_history() {
  W w; w.history(2);
  auto A = w.A;
  const int n = (int)npv::uni(1, 9);
  std::vector<T> ref(n, 0);
  auto L = std::make_shared<GlobalArray<T>>(w.target, n);
  auto parts = gp::flat(gp::state(A));
  const int ops = (int)npv::uni(1, 12);
  for (int o = 0; o < ops; o++) {
    const int f = (int)npv::uni(-20, 20);
    switch (npv::uni(0, 3)) {
    case 0: L->fill((T)f); for (auto &x : ref) x = (T)f; break;
    case 1: { L = std::make_shared<GlobalArray<T>>(w.target, n, (T)f); ref.assign(n, (T)f); break; }
    default: {
      particle_loop(A, [=](auto id, auto l) { l.add((int)(id.at(0) % n), (T)(id.at(0) % 7 + f)); }, Access::read(Sym<INT>("ID")), Access::add(L))->execute();
      std::vector<T> mine(n, 0), all(n, 0);
      for (auto &p : parts) mine[p.first % n] += (T)(p.first % 7 + f);
      MPI_Allreduce(mine.data(), all.data(), n, map_ctype_mpi_type<T>(), MPI_SUM, MPI_COMM_WORLD);
      for (int i = 0; i < n; i++) ref[i] += all[i];
      } break;
    }
    NPV_CHECK(L->size == (size_t)n, "an array has its size");
    NPV_CHECK(L->get() == ref, "a global array holds the sum over the ranks");
    std::vector<T> u(n); L->get(u);
    NPV_CHECK(u == ref, "a global array holds the sum over the ranks");
  }
}
NPV_BOUNDED(global_array_int, 40, 3) { global_history<INT>(); }
NPV_BOUNDED(global_array_real, 40, 3) { global_history<REAL>(); }
#endif
