// objects shared by the contracts
#pragma once
using namespace NESO::Particles;
#ifdef NPV_VC
// a SYCLTarget that is not constructed: its parameters are given by contract
// (engine/stdcontracts.py), its queue is the shim's
inline SYCLTargetSharedPtr h_target() {
  auto *s = new npv::storage<SYCLTarget>();
  return npv::raw(s->get());
}
#else
inline SYCLTargetSharedPtr h_target(MPI_Comm comm = MPI_COMM_WORLD) {
  static SYCLTargetSharedPtr w;
  SYCLTargetSharedPtr t;
  if (comm == MPI_COMM_WORLD) { if (!w) w = std::make_shared<SYCLTarget>(0, MPI_COMM_WORLD); t = w; }
  else t = std::make_shared<SYCLTarget>(0, comm);
  static const int sizes[] = {1, 2, 3, 4, 8, 32, 64};
  t->parameters->get<SizeTParameter>("LOOP_LOCAL_SIZE")->value = sizes[npv::rng()() % 7];
  setenv("NPV_DEVICE_IS_CPU", npv::rng()() % 3 ? "1" : "0", 1);
  t->parameters->get<SizeTParameter>("MAX_COMPUTE_UNITS")->value = 1 + npv::rng()() % 9;
  return t;
}
#endif
