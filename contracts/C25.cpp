// C25: errors raised inside kernels are reported and never invented
//@ opts: {"smallloops": 4}
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
using namespace NESO::Particles;
NPV_PROVE(raised_by_kernel, 300) {
  auto t = h_target();
  const int64_t n = npv::sym("n", 1, 1 << 20, 40), j = npv::sym("j", 0, (1 << 20) - 1, 40);
  int *bad = npv::array<int>("bad", n, 0, 1);
  npv::assume(j < n);
  npv::storage<ErrorPropagate> s;
  auto ep = new (s.get()) ErrorPropagate(t);
  NPV_CHECK(ep->get_flag() == 0, "nothing is reported before a kernel raises an error");
  int *f = ep->device_ptr();
  t->queue.submit([&](sycl::handler &h) { h.parallel_for(sycl::range<1>((size_t)n), [=](sycl::id<1> i) { NESO_KERNEL_ASSERT(!bad[i], f); }); }).wait_and_throw();
  const int raised = ep->get_flag();
#ifndef NPV_VC
  NPV_CHECK((raised > 0) == (npv::sum(bad, n) > 0), "the flag is raised exactly if a work item raised it since the reset");
#endif
  NPV_CHECK(!bad[j] || raised > 0, "a work item whose assertion fails raises the flag");
  NPV_CHECK(raised >= 0, "a raised flag is a positive number");
  NPV_CHECK(ep->get_flag() == raised, "reading the flag leaves it raised");
  t->queue.submit([&](sycl::handler &h) { h.parallel_for(sycl::range<1>((size_t)n), [=](sycl::id<1> i) { NESO_KERNEL_ASSERT(bad[i] < 2, f); }); }).wait_and_throw();
  NPV_CHECK(ep->get_flag() == raised, "a kernel that raises nothing leaves the flag as it was");
  t->queue.submit([&](sycl::handler &h) { h.parallel_for(sycl::range<1>((size_t)n), [=](sycl::id<1> i) { NESO_KERNEL_ASSERT((int64_t)i != j, f); }); }).wait_and_throw();
  NPV_CHECK((int64_t)ep->get_flag() > raised, "one failing work item is enough to raise the flag");
  ep->reset();
  NPV_CHECK(ep->get_flag() == 0, "nothing is reported after a reset");
  t->queue.submit([&](sycl::handler &h) { h.parallel_for(sycl::range<1>((size_t)n), [=](sycl::id<1> i) { NESO_KERNEL_ASSERT(!bad[i], f); }); }).wait_and_throw();
  NPV_CHECK(!bad[j] || ep->get_flag() > 0, "errors raised after a reset are reported");
  NPV_REACH("end");
  ep->~ErrorPropagate();
}
NPV_PROVE(recycled, 100) {
  auto t = h_target();
  npv::storage<ErrorPropagate> s;
  auto ep = new (s.get()) ErrorPropagate(t);
  const int64_t v = npv::sym("v", 0, 1 << 30, 5);
  int *f = ep->device_ptr();
  t->queue.submit([&](sycl::handler &h) { h.single_task<>([=]() { *f = (int)v; }); }).wait_and_throw();
  npv::storage<ResourceStackInterfaceErrorPropagate> r;
  auto rs = new (r.get()) ResourceStackInterfaceErrorPropagate(t);
  auto p = npv::raw(ep);
  rs->clean(p);
  NPV_CHECK(ep->get_flag() == 0, "a flag taken from the resource stack is not raised");
  NPV_REACH("end");
  ep->~ErrorPropagate();
}
#ifndef NPV_VC
NPV_BOUNDED(histories, 300, 1) {
  auto t = h_target();
  const int k = (int)npv::sym("instances", 1, 4, 4), ops = (int)npv::sym("ops", 1, 40, 40);
  std::vector<ErrorPropagateSharedPtr> e;
  std::vector<INT> ref(k, 0);
  auto map = std::make_shared<ResourceStackMap>();
  for (int i = 0; i < k; i++) e.push_back(error_propagate(t));
  for (int o = 0; o < ops; o++) {
    const int i = (int)npv::uni(0, k - 1);
    switch (npv::uni(0, 4)) {
    case 0: e[i]->reset(); ref[i] = 0; break;
    case 1: case 2: {
      const int n = (int)npv::uni(1, 200), m = (int)npv::uni(1, 250), r = (int)npv::uni(0, 250);
      int *f = e[i]->device_ptr();
      t->queue.submit([&](sycl::handler &h) { h.parallel_for(sycl::range<1>(n), [=](sycl::id<1> x) { NESO_KERNEL_ASSERT((int)x % m != r, f); }); }).wait_and_throw();
      for (int x = 0; x < n; x++) ref[i] += x % m == r;
      break;
    }
    case 3: {
      const bool thrown = npv::expect_assert([&] { e[i]->check_and_throw("raised"); });
      NPV_CHECK(thrown == (ref[i] != 0), "the check fails exactly if a work item raised the flag");
      break;
    }
    default: // recycle through a resource stack
      e[i] = nullptr;
      e[i] = get_resource<ErrorPropagate, ResourceStackInterfaceErrorPropagate>(map, ResourceStackKeyErrorPropagate{}, t);
      NPV_CHECK(e[i]->get_flag() == 0, "a flag taken from the resource stack is not raised");
      { int *f = e[i]->device_ptr(); if (npv::uni(0, 1)) t->queue.submit([&](sycl::handler &h) { h.single_task<>([=]() { NESO_KERNEL_ASSERT(false, f); }); }).wait_and_throw(); }
      restore_resource(map, ResourceStackKeyErrorPropagate{}, e[i]);
      e[i] = get_resource<ErrorPropagate, ResourceStackInterfaceErrorPropagate>(map, ResourceStackKeyErrorPropagate{}, t);
      NPV_CHECK(e[i]->get_flag() == 0, "a flag taken from the resource stack is not raised");
      restore_resource(map, ResourceStackKeyErrorPropagate{}, e[i]);
      e[i] = error_propagate(t);
      ref[i] = 0;
    }
    for (int j = 0; j < k; j++) NPV_CHECK((e[j]->get_flag() != 0) == (ref[j] != 0), "the flag is raised exactly if a work item raised it since the reset");
  }
  map->free();
}
#endif
