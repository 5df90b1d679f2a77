// C02: device math and small data-structure primitives meet their mathematical definition
//@ opts: {"smallloops": 1}
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
using namespace NESO::Particles;
static bool between(double a, double b, double x) { return npv::leq(a < b ? a : b, x) && npv::leq(x, a < b ? b : a); }

NPV_PROVE(comparisons_integer, 400) {
  const INT x = npv::sym("x", -(1ll << 40), 1ll << 40, 50), y = npv::sym("y", -(1ll << 40), 1ll << 40, 50);
  const INT mn = Kernel::min(x, y), mx = Kernel::max(x, y), ab = Kernel::abs(x);
  NPV_CHECK((mn == x || mn == y) && mn <= x && mn <= y, "integer minimum");
  NPV_CHECK((mx == x || mx == y) && mx >= x && mx >= y, "integer maximum");
  NPV_CHECK(ab >= 0 && (ab == x || ab == -x), "integer absolute value");
  NPV_REACH("end");
}
NPV_PROVE(comparisons_real, 400) {
  const REAL x = npv::symf("x"), y = npv::symf("y");
  const REAL mn = Kernel::min(x, y), mx = Kernel::max(x, y), ab = Kernel::abs(x);
  NPV_CHECK((mn == x || mn == y) && mn <= x && mn <= y, "real minimum");
  NPV_CHECK((mx == x || mx == y) && mx >= x && mx >= y, "real maximum");
  NPV_CHECK(ab >= 0 && (ab == x || ab == -x), "real absolute value");
  NPV_REACH("end");
}
NPV_PROVE(products, 400) {
  REAL *a = npv::array<REAL>("a", 4), *b = npv::array<REAL>("b", 4);
  NPV_CHECK(npv::near(Kernel::dot_product_2d(a, b), a[0] * b[0] + a[1] * b[1]), "two dimensional dot product");
  NPV_CHECK(npv::near(Kernel::dot_product_3d(a, b), a[0] * b[0] + a[1] * b[1] + a[2] * b[2]), "three dimensional dot product");
  NPV_CHECK(npv::near(Kernel::dot_product<4>(a, b), a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]), "general dot product");
  NPV_CHECK(npv::near(Kernel::dot_product<1>(a, b), a[0] * b[0]), "one dimensional dot product");
  REAL c[3];
  Kernel::cross_product(a[0], a[1], a[2], b[0], b[1], b[2], c, c + 1, c + 2);
  NPV_CHECK(npv::near(c[0], a[1] * b[2] - a[2] * b[1]) && npv::near(c[1], a[2] * b[0] - a[0] * b[2]) && npv::near(c[2], a[0] * b[1] - a[1] * b[0]), "cross product");
  NPV_CHECK(npv::near(Kernel::dot_product_3d(a, (const REAL *)c), 0.0), "cross product is orthogonal to its first factor");
  NPV_CHECK(npv::near(Kernel::dot_product_3d(b, (const REAL *)c), 0.0), "cross product is orthogonal to its second factor");
  NPV_REACH("end");
}
NPV_PROVE(line_orientation, 400) {
  const REAL ax = npv::symf("ax"), ay = npv::symf("ay"), bx = npv::symf("bx"), by = npv::symf("by");
  REAL p[4], q[4];
  consistent_line_orientation_2d(ax, ay, bx, by, p, p + 1, p + 2, p + 3);
  consistent_line_orientation_2d(bx, by, ax, ay, q, q + 1, q + 2, q + 3);
  NPV_CHECK((p[0] == ax && p[1] == ay && p[2] == bx && p[3] == by) || (p[0] == bx && p[1] == by && p[2] == ax && p[3] == ay), "same segment");
  NPV_CHECK(p[0] == q[0] && p[1] == q[1] && p[2] == q[2] && p[3] == q[3], "independent of the order of the end points");
  NPV_REACH("end");
}
NPV_PROVE(segment_intersection, 600) {
  const REAL xa = npv::symf("xa"), ya = npv::symf("ya"), xb = npv::symf("xb"), yb = npv::symf("yb");
  const REAL x0 = npv::symf("x0"), y0 = npv::symf("y0"), x1 = npv::symf("x1"), y1 = npv::symf("y1");
  REAL xi, yi, l;
  const bool r = line_segment_intersection_2d(xa, ya, xb, yb, x0, y0, x1, y1, xi, yi, l);
  if (r) {
    NPV_CHECK(npv::leq(0.0, l) && npv::leq(l, 1.0), "the parameter of a reported intersection lies on the first segment");
    NPV_CHECK(npv::near(xi, xa + l * (xb - xa), 1e-6) && npv::near(yi, ya + l * (yb - ya), 1e-6), "the reported point is the one at the reported parameter");
    NPV_CHECK(between(x0, x1, xi) && between(y0, y1, yi), "the reported point is within the box of the second segment");
    const REAL c = (xi - x0) * (y1 - y0) - (yi - y0) * (x1 - x0);
    NPV_CHECK(npv::near(c, 0.0, 1e-6), "the reported point is on the line of the second segment");
  }
  NPV_REACH("end");
}
NPV_PROVE(segment_intersection_is_found, 600) {
  const REAL xa = npv::symf("xa"), ya = npv::symf("ya"), xb = npv::symf("xb"), yb = npv::symf("yb");
  const REAL x0 = npv::symf("x0"), y0 = npv::symf("y0"), x1 = npv::symf("x1"), y1 = npv::symf("y1");
  const REAL s = npv::symf("s"), t = npv::symf("t");
  // a common point strictly inside both segments, which are not parallel
  npv::assume(0.01 < s && s < 0.99 && 0.01 < t && t < 0.99);
  const REAL px = xa + s * (xb - xa), py = ya + s * (yb - ya);
  const REAL ex = px - t * (x1 - x0), ey = py - t * (y1 - y0); // move the second segment through the point
  const REAL fx = ex + (x1 - x0), fy = ey + (y1 - y0);
  const REAL cz = (xb - xa) * (fy - ey) - (yb - ya) * (fx - ex);
  npv::assume(cz > 0.01 || cz < -0.01);
  REAL xi, yi, l;
  const bool r = line_segment_intersection_2d(xa, ya, xb, yb, ex, ey, fx, fy, xi, yi, l, 1e-9);
  NPV_CHECK(r, "crossing segments are reported as crossing");
  NPV_CHECK(npv::near(l, s, 1e-6), "the parameter is that of the common point");
  NPV_REACH("end");
}
NPV_PROVE(aligned_segment_intersection, 600) {
  const REAL xa = npv::symf("xa"), ya = npv::symf("ya"), xb = npv::symf("xb"), yb = npv::symf("yb");
  const REAL x0 = npv::symf("x0"), y0 = npv::symf("y0"), x1 = npv::symf("x1");
  REAL xi, yi;
  const bool r = line_segment_intersection_2d_x_axis_aligned(xa, ya, xb, yb, x0, y0, x1, xi, yi);
  const bool strad = (ya <= y0 && y0 <= yb) || (yb <= y0 && y0 <= ya), same = ya == yb;
  if (r) {
    NPV_CHECK(strad && !(ya == y0 && yb == y0), "a reported crossing has end points on both sides of the line");
    NPV_CHECK(yi == y0 && between(x0, x1, xi), "the reported point is on the aligned segment");
    NPV_CHECK(npv::near((xi - xa) * (yb - ya), (y0 - ya) * (xb - xa), 1e-6), "the reported point is on the first segment");
  } else if (strad && !same && (yb - ya > 0.001 || ya - yb > 0.001)) {
    const REAL x = xa + (y0 - ya) * (xb - xa) / (yb - ya);
    NPV_CHECK(!(x0 + 1e-6 <= x && x <= x1 - 1e-6) && !(x1 + 1e-6 <= x && x <= x0 - 1e-6), "a crossing within the aligned segment is reported");
  }
  REAL ui, vi;
  const bool q = line_segment_intersection_2d_y_axis_aligned(ya, xa, yb, xb, y0, x0, x1, ui, vi);
  NPV_CHECK(q == r && (!q || (ui == yi && vi == xi)), "the two aligned variants are mirror images");
  NPV_REACH("end");
}
NPV_PROVE(plane_intersection, 600) {
  const REAL ax = npv::symf("ax"), ay = npv::symf("ay"), az = npv::symf("az"), bx = npv::symf("bx"), by = npv::symf("by"), bz = npv::symf("bz");
  const REAL px = npv::symf("p0x"), py = npv::symf("p0y"), pz = npv::symf("p0z"), qx = npv::symf("p1x"), qy = npv::symf("p2y");
  REAL xi, yi, zi;
  const bool r = plane_intersection_3d_xy_plane_aligned(ax, ay, az, bx, by, bz, px, py, pz, qx, qy, xi, yi, zi);
  const bool strad = (az <= pz && pz <= bz) || (bz <= pz && pz <= az);
  if (r) {
    NPV_CHECK(strad && !(az == pz && bz == pz), "a reported crossing has end points on both sides of the plane");
    NPV_CHECK(zi == pz && between(px, qx, xi) && between(py, qy, yi), "the reported point is in the rectangle");
    NPV_CHECK(npv::near((xi - ax) * (bz - az), (pz - az) * (bx - ax), 1e-6) && npv::near((yi - ay) * (bz - az), (pz - az) * (by - ay), 1e-6), "the reported point is on the segment");
  } else if (strad && (bz - az > 0.001 || az - bz > 0.001)) {
    const REAL x = ax + (pz - az) * (bx - ax) / (bz - az), y = ay + (pz - az) * (by - ay) / (bz - az);
    const bool inx = (px + 1e-6 <= x && x <= qx - 1e-6) || (qx + 1e-6 <= x && x <= px - 1e-6), iny = (py + 1e-6 <= y && y <= qy - 1e-6) || (qy + 1e-6 <= y && y <= py - 1e-6);
    NPV_CHECK(!(inx && iny), "a crossing within the rectangle is reported");
  }
  NPV_REACH("end");
}
NPV_PROVE(inverse_3x3, 400) {
  REAL *M = npv::array<REAL>("M", 9), *L = npv::array<REAL>("L", 9);
  const REAL det = M[0] * (M[4] * M[8] - M[5] * M[7]) - M[1] * (M[3] * M[8] - M[5] * M[6]) + M[2] * (M[3] * M[7] - M[4] * M[6]);
  npv::assume(det > 0.05 || det < -0.05);
  naive_matrix_inverse<3>(M, L);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    NPV_CHECK(npv::near(L[3 * i] * M[j] + L[3 * i + 1] * M[3 + j] + L[3 * i + 2] * M[6 + j], i == j ? 1.0 : 0.0, 1e-6), "inverse times matrix is the identity");
  }
  NPV_REACH("end");
}
NPV_PROVE(inverse_4x4, 400) {
  REAL *M = npv::array<REAL>("M", 16), *L = npv::array<REAL>("L", 16);
  const REAL s0 = M[0] * M[5] - M[4] * M[1], s1 = M[0] * M[6] - M[4] * M[2], s2 = M[0] * M[7] - M[4] * M[3], s3 = M[1] * M[6] - M[5] * M[2], s4 = M[1] * M[7] - M[5] * M[3], s5 = M[2] * M[7] - M[6] * M[3];
  const REAL c5 = M[10] * M[15] - M[14] * M[11], c4 = M[9] * M[15] - M[13] * M[11], c3 = M[9] * M[14] - M[13] * M[10], c2 = M[8] * M[15] - M[12] * M[11], c1 = M[8] * M[14] - M[12] * M[10], c0 = M[8] * M[13] - M[12] * M[9];
  const REAL det = s0 * c5 - s1 * c4 + s2 * c3 + s3 * c2 - s4 * c1 + s5 * c0;
  npv::assume(det > 0.05 || det < -0.05);
  naive_matrix_inverse<4>(M, L);
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) {
    NPV_CHECK(npv::near(L[4 * i] * M[j] + L[4 * i + 1] * M[4 + j] + L[4 * i + 2] * M[8 + j] + L[4 * i + 3] * M[12 + j], i == j ? 1.0 : 0.0, 1e-6), "inverse times matrix is the identity");
  }
  NPV_REACH("end");
}
NPV_PROVE(atomics_sequential, 400) {
  INT *p = npv::array<INT>("p", 3, -(1ll << 40), 1ll << 40);
  const INT v = npv::sym("v", -(1ll << 40), 1ll << 40, 60), a = p[0], b = p[1], c = p[2];
  NPV_CHECK(atomic_fetch_add(p, v) == a && p[0] == a + v, "fetch_add returns the old value and adds");
  NPV_CHECK(atomic_fetch_min(p + 1, v) == b && p[1] == (b < v ? b : v), "fetch_min returns the old value and takes the minimum");
  NPV_CHECK(atomic_fetch_max(p + 2, v) == c && p[2] == (c > v ? c : v), "fetch_max returns the old value and takes the maximum");
  Kernel::atomic_reduce(Kernel::plus<INT>{}, p, v); NPV_CHECK(p[0] == a + 2 * v, "atomic sum");
  p[1] = b; Kernel::atomic_reduce(Kernel::minimum<INT>{}, p + 1, v); NPV_CHECK(p[1] == (b < v ? b : v), "atomic minimum");
  p[2] = c; Kernel::atomic_reduce(Kernel::maximum<INT>{}, p + 2, v); NPV_CHECK(p[2] == (c > v ? c : v), "atomic maximum");
  NPV_CHECK(Kernel::get_identity(Kernel::plus<INT>{}) == 0 && Kernel::get_identity(Kernel::minimum<INT>{}) >= v && Kernel::get_identity(Kernel::maximum<INT>{}) <= v, "identities of the reductions");
  NPV_REACH("end");
}
NPV_PROVE(nd_index_linear, 400) {
  const int64_t a = npv::sym("a", 1, 1 << 12, 9), b = npv::sym("b", 1, 1 << 12, 9), c = npv::sym("c", 1, 1 << 12, 9);
  auto I = nd_index<3>(a, b, c);
  NPV_CHECK(I.size() == a * b * c, "the size is the product of the extents");
  NPV_FORALL(i, 0, a) NPV_FORALL(j, 0, b) NPV_FORALL(k, 0, c) {
    const INT x = I.get_linear_index(i, j, k);
    NPV_CHECK(x == (i * b + j) * c + k, "row-major linear index, last index fastest");
    NPV_CHECK(0 <= x && x < a * b * c, "linear indices are within the size");
  }
  auto J = nd_index<1>(b);
  NPV_FORALL(q, 0, b) { NPV_CHECK(J.get_linear_index(q) == q && J.size() == b, "one dimensional index is the identity"); }
  NPV_REACH("end");
}
#ifndef NPV_VC
NPV_BOUNDED(powers_of_two_test, 400, 1) {
  const int64_t n = npv::sym("n", 0, 1 << 20, 70);
  const bool r = is_power_of_two(n);
  bool e = false;
  for (int k = 0; k < 21; k++) e = e || n == (1 << k);
  NPV_CHECK(r == e, "recognises exactly the powers of two");
}
#include <algorithm>
NPV_BOUNDED(atomics_cas, 400, 1) {
  auto val = [] { return npv::uni(0, 5) == 0 ? (npv::uni(0, 1) ? std::numeric_limits<INT>::max() : std::numeric_limits<INT>::min()) : npv::uni(-9, 9); };
  INT x = val(), v = val(), o = x;
  NPV_CHECK(atomic_fetch_max_cas_strong(&x, v) == o && x == std::max(o, v), "compare-and-swap maximum");
  x = o;
  NPV_CHECK(atomic_fetch_min_cas_strong(&x, v) == o && x == std::min(o, v), "compare-and-swap minimum");
  REAL y = npv::uni(-3, 3) * 0.5, w = npv::uni(-3, 3) * 0.5, z = y;
  NPV_CHECK(atomic_fetch_max_cas_strong(&y, w) == z && y == std::max(z, w), "compare-and-swap maximum of reals");
  y = z;
  NPV_CHECK(atomic_fetch_min_cas_strong(&y, w) == z && y == std::min(z, w), "compare-and-swap minimum of reals");
  y = z; NPV_CHECK(atomic_fetch_max(&y, w) == z && y == std::max(z, w), "maximum of reals");
  y = z; NPV_CHECK(atomic_fetch_min(&y, w) == z && y == std::min(z, w), "minimum of reals");
  y = z; NPV_CHECK(atomic_fetch_add(&y, w) == z && y == z + w, "sum of reals");
}
NPV_BOUNDED(group_sort_and_reduce, 300, 1) {
  auto t = h_target();
  const std::size_t groups = npv::uni(1, 5), ls = 8;
  std::vector<INT> in(groups * 8), out;
  for (auto &x : in) x = npv::uni(-6, 6);
  const std::size_t nr = npv::uni(0, 40), rl = 1ull << npv::uni(0, 4);
  std::vector<INT> rin(nr);
  for (auto &x : rin) x = npv::uni(-50, 50);
  BufferDevice<INT> b(t, in), rb(t, std::max<std::size_t>(nr, 1)), ro(t, 3);
  if (nr) t->queue.memcpy(rb.ptr, rin.data(), nr * sizeof(INT)).wait();
  INT *p = b.ptr, *q = rb.ptr, *o = ro.ptr;
  t->queue.submit([&](sycl::handler &h) {
    sycl::local_accessor<INT, 1> lm(sycl::range<1>(ls), h);
    h.parallel_for(sycl::nd_range<1>(groups * ls, ls), [=](sycl::nd_item<1> i) {
      lm[i.get_local_linear_id()] = p[i.get_global_linear_id()];
      Kernel::bitonic8(i.get_group(), &lm[0]);
      sycl::group_barrier(i.get_group());
      p[i.get_global_linear_id()] = lm[i.get_local_linear_id()];
    });
  }).wait();
  out = b.get();
  for (std::size_t g = 0; g < groups; g++) {
    std::vector<INT> e(in.begin() + g * 8, in.begin() + g * 8 + 8);
    std::sort(e.begin(), e.end());
    NPV_CHECK(std::equal(e.begin(), e.end(), out.begin() + g * 8), "eight values are sorted in place");
  }
  t->queue.parallel_for(sycl::nd_range<1>(rl, rl), [=](sycl::nd_item<1> i) {
    const INT a = Kernel::joint_reduce(i.get_group(), q, q + nr, Kernel::plus<INT>{});
    const INT c = Kernel::joint_reduce(i.get_group(), q, q + nr, Kernel::minimum<INT>{});
    const INT d = Kernel::joint_reduce(i.get_group(), q, q + nr, Kernel::maximum<INT>{});
    if (i.get_local_linear_id() == rl - 1) { o[0] = a; o[1] = c; o[2] = d; }
  }).wait();
  auto r = ro.get();
  INT s = 0, mn = std::numeric_limits<INT>::max(), mx = std::numeric_limits<INT>::lowest();
  for (INT x : rin) { s += x; mn = std::min(mn, x); mx = std::max(mx, x); }
  NPV_CHECK(r[0] == s && r[1] == mn && r[2] == mx, "group reductions combine every element once");
}
NPV_BOUNDED(host_helpers, 300, 1) {
  const int n = (int)npv::uni(0, 20);
  std::vector<int> v(n);
  for (auto &x : v) x = (int)npv::uni(-5, 5);
  auto s = reverse_argsort(v);
  NPV_CHECK((int)s.size() == n, "an index for every element");
  std::vector<int> seen(n, 0);
  for (int k = 0; k < n; k++) { seen.at(s[k])++; if (k) NPV_CHECK(v[s[k - 1]] >= v[s[k]], "indices order the values from largest to smallest"); }
  for (int k = 0; k < n; k++) NPV_CHECK(seen[k] == 1, "the indices are a permutation");
  int p = 1; std::vector<int> w((std::size_t)npv::uni(1, 4)); for (auto &x : w) { x = (int)npv::uni(1, 6); p *= x; }
  NPV_CHECK(reduce_mul((int)w.size(), w) == p, "product of the values");
}
#endif
