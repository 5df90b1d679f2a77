// a mesh of a number of cells
#pragma once
#ifdef NPV_VC
using namespace NESO::Particles;
struct Cells : HMesh { // a mesh of a number of cells
  int n;
  std::vector<int> v;
  std::shared_ptr<MeshHierarchy> h;
  MPI_Comm get_comm() override { return MPI_COMM_WORLD; }
  int get_ndim() override { return 2; }
  std::vector<int> &get_dims() override { return v; }
  int get_subdivision_order() override { return 0; }
  int get_cell_count() override { return n; }
  double get_cell_width_coarse() override { return 1; }
  double get_cell_width_fine() override { return 1; }
  double get_inverse_cell_width_coarse() override { return 1; }
  double get_inverse_cell_width_fine() override { return 1; }
  int get_ncells_coarse() override { return n; }
  int get_ncells_fine() override { return n; }
  std::shared_ptr<MeshHierarchy> get_mesh_hierarchy() override { return h; }
  void free() override {}
  std::vector<int> &get_local_communication_neighbours() override { return v; }
  void get_point_in_subdomain(double *) override {}
};
static inline HMeshSharedPtr vc_mesh(int ncell) { auto m = new Cells(); m->n = ncell; return npv::raw<HMesh>(m); }
#endif
