// C01: parallel prefix sums, transposition and reduction equal their sequential definition
//@ srcs: src/algorithms/common.cpp
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
using namespace NESO::Particles;

NPV_PROVE(exclusive_scan_single_group, 400) {
  auto t = h_target();
  const int64_t n = npv::sym("n", 0, 1 << 24, 200);
  int *a = npv::array<int>("a", n, 0, 100), *b = npv::array<int>("b", n);
  joint_exclusive_scan(t, n, a, b).wait();
  int64_t before = 0;
  NPV_FORALL(k, 0, n) { NPV_CHECK(b[k] == npv::sum(a, k), "exclusive prefix sum"); }
  (void)before;
  NPV_REACH("end");
}

NPV_PROVE(exclusive_scan_multi_block, 400) {
  auto t = h_target();
  const int64_t n = npv::sym("n", 0, 1 << 24, 300);
  const int64_t naux = get_joint_exclusive_scan_aux_array_size(t, n);
  int *a = npv::array<int>("a", n, 0, 100), *b = npv::array<int>("b", n), *aux = npv::array<int>("aux", naux);
  joint_exclusive_scan(t, n, aux, a, b).wait();
  NPV_FORALL(k, 0, n) { NPV_CHECK(b[k] == npv::sum(a, k), "exclusive prefix sum"); }
  NPV_REACH("end");
}

NPV_PROVE(exclusive_scan_n_fixed, 300) {
  auto t = h_target();
  const int64_t n = npv::sym("n", 0, 1 << 16, 8), m = npv::sym("m", 0, 1 << 12, 20);
  int *a = npv::array<int>("a", n * m, 0, 100), *b = npv::array<int>("b", n * m);
  joint_exclusive_scan_n(t, n, (std::size_t)m, a, b).wait();
  NPV_FORALL(i, 0, n) NPV_FORALL(k, 0, m) { NPV_CHECK(b[i * m + k] == npv::sum(a + i * m, k), "row-wise exclusive prefix sum"); }
  NPV_REACH("end");
}

NPV_PROVE(transpose, 300) {
  auto t = h_target();
  const int64_t r = npv::sym("r", 0, 1 << 16, 40), c = npv::sym("c", 0, 1 << 16, 40);
  double *a = npv::array<double>("a", r * c), *b = npv::array<double>("b", r * c);
  matrix_transpose(t, r, c, a, b).wait();
  NPV_FORALL(i, 0, r) NPV_FORALL(j, 0, c) { NPV_CHECK(b[j * r + i] == a[i * c + j], "transposed"); }
  NPV_REACH("end");
}
