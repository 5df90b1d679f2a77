// C03: 1-D decompositions tile the work items; rounding helpers and nd-range peeling cover every item
//@ srcs: src/compute_target.cpp
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
using namespace NESO::Particles;
static const int64_t BIG = 1ll << 40;

NPV_PROVE(decomp_tiles_signed, 400) {
  const int64_t n = npv::sym("n", 1, 1 << 20, 40), w = npv::sym("w", 0, 1ll << 40, 200);
  INT s = -1, e = -1;
  NPV_FORALL(i, 0, n) {
    get_decomp_1d<INT>(n, w, i, &s, &e);
    NPV_CHECK(0 <= s && s <= e && e <= w, "piece is inside the work items");
    NPV_CHECK(i != 0 || s == 0, "first piece starts at zero");
    NPV_CHECK(i != n - 1 || e == w, "last piece ends at the end");
    NPV_CHECK((e - s) * n <= w + n - 1 && (e - s + 1) * n > w, "pieces are balanced");
    if (i + 1 < n) {
      INT s2, e2;
      get_decomp_1d<INT>(n, w, i + 1, &s2, &e2);
      NPV_CHECK(s2 == e, "next piece starts where this one ends");
    }
  }
  NPV_REACH("end");
}

NPV_PROVE(decomp_tiles_int, 400) {
  const int64_t n = npv::sym("n", 1, 1 << 15, 40), w = npv::sym("w", 0, 1 << 30, 200);
  int s = -1, e = -1;
  NPV_FORALL(i, 0, n) {
    get_decomp_1d<int>(n, w, i, &s, &e);
    NPV_CHECK(0 <= s && s <= e && e <= w, "piece is inside the work items");
    NPV_CHECK(i != 0 || s == 0, "first piece starts at zero");
    NPV_CHECK(i != n - 1 || e == w, "last piece ends at the end");
    if (i + 1 < n) {
      int s2, e2;
      get_decomp_1d<int>(n, w, i + 1, &s2, &e2);
      NPV_CHECK(s2 == e, "next piece starts where this one ends");
    }
  }
  NPV_REACH("end");
}

NPV_PROVE(decomp_tiles_unsigned, 400) {
  const int64_t n = npv::sym("n", 1, 1 << 20, 40), w = npv::sym("w", 0, 1ll << 40, 200);
  std::size_t s = 7, e = 7;
  NPV_FORALL(i, 0, n) {
    get_decomp_1d((std::size_t)n, (std::size_t)w, (std::size_t)i, &s, &e);
    NPV_CHECK(s <= e && e <= (std::size_t)w, "piece is inside the work items");
    NPV_CHECK(i != 0 || s == 0, "first piece starts at zero");
    NPV_CHECK(i != n - 1 || e == (std::size_t)w, "last piece ends at the end");
    if (i + 1 < n) {
      std::size_t s2, e2;
      get_decomp_1d((std::size_t)n, (std::size_t)w, (std::size_t)(i + 1), &s2, &e2);
      NPV_CHECK(s2 == e, "next piece starts where this one ends");
    }
  }
  NPV_REACH("end");
}

NPV_PROVE(decomp_inverse, 400) {
  const int64_t n = npv::sym("n", 1, 1 << 20, 40), w = npv::sym("w", 0, 1ll << 40, 200);
  NPV_FORALL(k, 0, w) {
    const std::size_t i = get_decomp_1d_inverse((std::size_t)n, (std::size_t)w, (std::size_t)k);
    NPV_CHECK(i < (std::size_t)n, "owner is a compute unit");
    std::size_t s, e;
    get_decomp_1d((std::size_t)n, (std::size_t)w, i, &s, &e);
    NPV_CHECK(s <= (std::size_t)k && (std::size_t)k < e, "the owner's piece contains the item");
  }
  NPV_REACH("end");
}

NPV_PROVE(rounding, 600) {
  const int64_t n = npv::sym("n", 0, BIG, 3000), m = npv::sym("m", 1, 1 << 20, 300);
  const std::size_t r = get_next_multiple(n, m);
  NPV_CHECK(r >= (std::size_t)n && r < (std::size_t)(n + m), "next multiple is the smallest one that is not below");
  NPV_CHECK(r % m == 0, "next multiple is a multiple");
  const int64_t d = div_round_up<int64_t>(n, m);
  NPV_CHECK(d * m >= n && (d - 1) * m < n, "rounded-up division is the ceiling");
  const std::size_t du = div_round_up<std::size_t>(n, m);
  NPV_CHECK(du * m >= (std::size_t)n && (du == 0 || (du - 1) * m < (std::size_t)n), "rounded-up unsigned division is the ceiling");
  NPV_REACH("end");
}

NPV_PROVE(nd_range_peel, 600) {
  const int64_t n = npv::sym("n", 0, BIG, 3000), l = npv::sym("l", 1, 1 << 16, 300);
  auto p = get_nd_range_peel_1d(n, l);
  const std::size_t G = p.loop_main.get_global_range().get(0), L = p.loop_main.get_local_range().get(0);
  NPV_CHECK(L == (std::size_t)l && G % l == 0, "main loop is a whole number of groups");
  NPV_CHECK(G <= (std::size_t)n, "main loop stays inside the iteration set");
  NPV_CHECK(p.offset == G, "peel starts where the main loop ends");
  NPV_CHECK(p.peel_exists == (G < (std::size_t)n), "peel exists exactly when items remain");
  if (p.peel_exists) {
    const std::size_t PG = p.loop_peel.get_global_range().get(0);
    NPV_CHECK(p.loop_peel.get_local_range().get(0) == (std::size_t)l && PG % l == 0, "peel is a whole number of groups");
    NPV_CHECK(p.offset + PG >= (std::size_t)n, "peel covers the remaining items");
  }
  NPV_REACH("end");
}

NPV_PROVE(nd_range_main_size, 600) {
  auto t = h_target();
  const int64_t n = npv::sym("n", 0, BIG, 3000), l = npv::sym("l", 1, 1 << 16, 300);
  auto is = get_nd_range_peel_1d(n, l);
  NPV_CHECK(is.loop_main.get_global_range().get(0) + (is.peel_exists ? is.loop_peel.get_global_range().get(0) : 0) < (std::size_t)(n + l), "at most one partial group is launched");
  (void)t;
  NPV_REACH("end");
}

#ifndef NPV_VC
NPV_BOUNDED(powers_of_two, 2000, 1) {
  const int64_t n = npv::rng()() % 3 ? npv::uni(1, 5000) : (1ll << npv::uni(0, 29)) + npv::uni(-1, 1);
  npv::note("n", std::to_string(n));
  if (n < 1) return;
  int64_t p = get_prev_power_of_two<std::size_t>(n);
  NPV_CHECK(p >= 1 && (p & (p - 1)) == 0 && p <= n && 2 * p > n, "previous power of two");
  p = get_prev_power_of_two<int>((int)n);
  NPV_CHECK(p >= 1 && (p & (p - 1)) == 0 && p <= n && 2 * p > n, "previous power of two (int)");
  const std::size_t mx = (std::size_t)1 << npv::uni(3, 30);
  int64_t q = get_min_power_of_two<std::size_t>(n, mx);
  NPV_CHECK(q >= 1 && q <= (int64_t)mx && (q & (q - 1)) == 0, "power of two not above the maximum");
  NPV_CHECK(q == (int64_t)mx || q > n, "power of two exceeds the count unless limited");
  NPV_CHECK(q == 4 || q == (int64_t)mx || q <= 2 * n, "power of two is not needlessly large");
}

NPV_BOUNDED(local_work_items, 600, 1) {
  auto t = h_target();
  const std::size_t lm = t->device_limits.local_mem_size;
  const std::size_t bytes = npv::rng()() % 8 ? npv::uni(1, 4000) : 0, dflt = npv::uni(1, 2048), off = npv::rng()() % 2 ? 0 : npv::uni(0, lm / 2);
  npv::note("bytes", std::to_string(bytes)); npv::note("default", std::to_string(dflt)); npv::note("offset", std::to_string(off));
  if (off + bytes > lm) return;
  const std::size_t r = t->get_num_local_work_items(off, bytes, dflt);
  NPV_CHECK(r >= 1 && r <= dflt, "between one and the default number of work items");
  NPV_CHECK(r * bytes + off <= lm, "the local memory of the group fits");
  NPV_CHECK(r == dflt || 2 * r * bytes + off > lm || bytes == 0, "not needlessly small");
  const std::size_t r0 = t->get_num_local_work_items(bytes, dflt);
  NPV_CHECK(r0 >= 1 && r0 <= dflt && r0 * bytes <= lm, "no offset: local memory fits");
}

NPV_BOUNDED(validated_ranges, 300, 1) {
  auto t = h_target();
  auto &dl = t->device_limits;
  const std::size_t l0 = npv::uni(1, 40), l1 = npv::uni(1, 20), g0 = l0 * npv::uni(1, 9), g1 = l1 * npv::uni(1, 9);
  auto r = dl.validate_nd_range(sycl::nd_range<2>(sycl::range<2>(g0, g1), sycl::range<2>(l0, l1)));
  NPV_CHECK(r.get_global_range().get(0) == g0 && r.get_global_range().get(1) == g1 && r.get_local_range().get(0) == l0 && r.get_local_range().get(1) == l1, "a valid range is returned unchanged");
  if (l0 > 1) {
    bool bad = npv::expect_assert([&] { dl.validate_nd_range(sycl::nd_range<2>(sycl::range<2>(g0 + 1, g1), sycl::range<2>(l0, l1))); });
    NPV_CHECK(bad, "a local range that does not divide the global range is rejected");
  }
}
#endif
