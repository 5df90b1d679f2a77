// C04: iteration sets and loops visit every selected particle exactly once and index it correctly
//@ opts: {"smallloops": 1}
//@ srcs: src/loop/particle_loop_iteration_set.cpp src/loop/particle_loop_base.cpp
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
using namespace NESO::Particles;
using namespace NESO::Particles::ParticleLoopImplementation;

// an item of a valid nd-range
static sycl::nd_item<2> h_item(int64_t g0, int64_t grp, int64_t lid, int64_t L, int64_t G0, int64_t G1) {
  sycl::nd_item<2> it;
  it.gid[0] = g0; it.gid[1] = grp * L + lid; it.lid[0] = 0; it.lid[1] = lid; it.grp[0] = g0; it.grp[1] = grp;
  it.G[0] = G0; it.G[1] = G1; it.L[0] = 1; it.L[1] = L;
  return it;
}

NPV_PROVE(block_cell_layer, 300) {
  const int64_t L = npv::sym("L", 1, 1 << 12, 16), ng = npv::sym("ng", 1, 1 << 20, 8), nc = npv::sym("nc", 1, 1 << 20, 8);
  const int64_t oc = npv::sym("oc", 0, 1 << 20, 8), ol = npv::sym("ol", 0, 1 << 20, 50);
  int *np = npv::array<int>("np", nc + oc, 0, 1 << 30);
  ParticleLoopBlockDevice b{(std::size_t)oc, (std::size_t)ol, np, 1};
  NPV_FORALL(c, 0, nc) NPV_FORALL(l, 0, ng * L) {
    auto it = h_item(c, l / L, l % L, L, nc, ng * L);
    std::size_t cell = 77, layer = 77;
    b.get_cell_layer(it, &cell, &layer);
    NPV_CHECK(cell == (std::size_t)(oc + c) && layer == (std::size_t)(ol + l), "items map one to one onto the block's cells and layers");
    NPV_CHECK(b.work_item_required(cell, layer) == (ol + l < np[oc + c]), "an item works exactly when its layer holds a particle");
    std::size_t cell2 = 77, block = 77;
    b.stride_get_cell_block(it, &cell2, &block);
    NPV_CHECK(cell2 == (std::size_t)(oc + c) && block == (std::size_t)(ol + l), "items map one to one onto the block's cells and particle blocks");
  }
  NPV_REACH("end");
}

NPV_PROVE(stride_bounds, 300) {
  const int64_t S = npv::sym("S", 1, 1 << 10, 6), nc = npv::sym("nc", 1, 1 << 20, 4), blk = npv::sym("blk", 0, 1 << 20, 12);
  int *np = npv::array<int>("np", nc, 0, 1 << 30);
  ParticleLoopBlockDevice b{0, 0, np, (std::size_t)S};
  NPV_FORALL(c, 0, nc) {
    const bool req = b.stride_work_item_required(c, blk);
    NPV_CHECK(req == (blk * S < np[c]), "a block is required exactly when its first layer holds a particle");
    if (req) {
      const int64_t e = (int64_t)b.stride_local_index_bound(c, blk);
      NPV_CHECK(e >= 1 && e <= S && blk * S + e <= np[c], "the bound stays inside the block and the cell");
      NPV_CHECK(e == S || blk * S + e == np[c], "the bound reaches the end of the block or of the cell");
    }
  }
  NPV_REACH("end");
}

NPV_PROVE(interlaced_layers, 300) {
  // the layers of the items of one work group over all stride indices are the group's contiguous range of layers
  const int64_t L = npv::sym("L", 1, 1 << 10, 8), S = npv::sym("S", 1, 1 << 10, 5), g = npv::sym("g", 0, 1 << 16, 5), o = npv::sym("o", 0, 1 << 16, 9);
  int *np = npv::array<int>("np", 4, 0, 100);
  ParticleLoopBlockDevice b{1, (std::size_t)o, np, (std::size_t)S};
  NPV_FORALL(l, 0, L) NPV_FORALL(s, 0, S) {
    auto it = h_item(2, g, l, L, 3, (g + 1) * L);
    std::size_t cell = 0, layer = 0;
    b.get_interlaced_cell_layer(it, (std::size_t)s, &cell, &layer);
    NPV_CHECK(cell == 3, "cell of an interlaced item");
    NPV_CHECK((int64_t)layer == o * S + g * S * L + s * L + l, "layer of an interlaced item");
    NPV_CHECK((int64_t)layer >= o * S + g * S * L && (int64_t)layer < o * S + (g + 1) * S * L, "the layers of a group are contiguous and disjoint from the next group's");
  }
  NPV_REACH("end");
}

NPV_PROVE(iteration_bounds, 200) {
  const int64_t nc = npv::sym("nc", 1, 1 << 20, 9), a = npv::sym("a", 0, 1 << 20, 9), b = npv::sym("b", 0, 1 << 20, 9), k = npv::sym("k", 0, 2, 2);
  npv::assume(a < nc && b <= nc && a <= b);
  int s = -5, e = -5;
  std::optional<int> o1, o2;
  if (k > 0) o1 = (int)a;
  if (k > 1) o2 = (int)b;
  const bool all = determine_iteration_set((int)nc, o1, o2, &s, &e);
  if (k == 0) { NPV_CHECK(all && s == 0 && e == nc, "no bounds: every cell"); }
  if (k == 1) { NPV_CHECK(!all && s == a && e == a + 1, "one bound: that cell"); }
  if (k == 2) { NPV_CHECK(s == a && e == b && (!all || (a == 0 && b == nc)), "two bounds: that range"); }
  NPV_REACH("end");
}


NPV_PROVE(single_cell_blocks, 300) {
  // the blocks of a single cell cover each of its particles exactly once
  auto t = h_target();
  const int64_t nc = npv::sym("nc", 1, 1 << 20, 6), L = npv::sym("L", 1, 1 << 12, 33);
  int *np = npv::array<int>("np", nc, 0, 1 << 28);
  const int64_t c = npv::sym("c", 0, 1 << 20, 6);
  npv::assume(c < nc);
  ParticleLoopBlockIterationSet is(t, nc, np, np);
  auto &bl = is.get_single_cell(c, L, 0, 1);
  const int64_t nb = bl.size();
  NPV_CHECK(nb <= 2, "at most a main block and a peel block");
  NPV_CHECK((nb == 0) == (np[c] == 0), "an empty cell has no blocks");
  int64_t end0 = 0, end1 = 0;
  if (nb > 0) {
    NPV_CHECK(bl[0].block_device.offset_cell == (std::size_t)c && bl[0].loop_iteration_set.get_global_range()[0] == 1, "a block visits the selected cell only");
    NPV_CHECK(bl[0].block_device.offset_layer == 0, "the first block starts at the first layer");
    end0 = bl[0].loop_iteration_set.get_global_range()[1];
    NPV_CHECK(bl[0].layer_bounds_check_required || end0 <= np[c], "a block without bounds checks visits existing particles only");
    end1 = end0;
  }
  if (nb > 1) {
    NPV_CHECK(bl[1].block_device.offset_cell == (std::size_t)c && bl[1].loop_iteration_set.get_global_range()[0] == 1, "the peel visits the selected cell only");
    NPV_CHECK((int64_t)bl[1].block_device.offset_layer == end0, "the peel starts where the main block ends");
    end1 = end0 + bl[1].loop_iteration_set.get_global_range()[1];
    NPV_CHECK(bl[1].layer_bounds_check_required || end1 <= np[c], "a block without bounds checks visits existing particles only");
  }
  NPV_CHECK(end1 >= np[c], "every particle of the cell is covered");
  NPV_REACH("end");
}

template <int S> static void strided_blocks() {
  // the blocks of a single cell cover each of its particles exactly once
  auto t = h_target();
  const int64_t nc = npv::sym("nc", 1, 1 << 20, 6), L = npv::sym("L", 1, 1 << 12, 33);
  int *np = npv::array<int>("np", nc, 0, 1 << 28);
  const int64_t c = npv::sym("c", 0, 1 << 20, 6);
  npv::assume(c < nc);
  ParticleLoopBlockIterationSet is(t, nc, np, np);
  auto &bl = is.get_single_cell(c, L, 0, S);
  const int64_t nb = bl.size();
  NPV_CHECK(nb <= 2, "at most a main block and a peel block");
  NPV_CHECK((nb == 0) == (np[c] == 0), "an empty cell has no blocks");
  int64_t end0 = 0, end1 = 0;
  if (nb > 0) {
    NPV_CHECK(bl[0].block_device.offset_cell == (std::size_t)c && bl[0].loop_iteration_set.get_global_range()[0] == 1, "a block visits the selected cell only");
    NPV_CHECK(bl[0].block_device.offset_layer == 0, "the first block starts at the first layer");
    end0 = bl[0].loop_iteration_set.get_global_range()[1];
    NPV_CHECK(bl[0].layer_bounds_check_required || end0 * S <= np[c], "a block without bounds checks visits existing particles only");
    end1 = end0;
  }
  if (nb > 1) {
    NPV_CHECK(bl[1].block_device.offset_cell == (std::size_t)c && bl[1].loop_iteration_set.get_global_range()[0] == 1, "the peel visits the selected cell only");
    NPV_CHECK((int64_t)bl[1].block_device.offset_layer == end0, "the peel starts where the main block ends");
    end1 = end0 + bl[1].loop_iteration_set.get_global_range()[1];
    NPV_CHECK(bl[1].layer_bounds_check_required || end1 * S <= np[c], "a block without bounds checks visits existing particles only");
  }
  NPV_CHECK(end1 * S >= np[c], "every particle of the cell is covered");
  NPV_REACH("end");
}

NPV_PROVE(single_cell_blocks_stride2, 100) { strided_blocks<2>(); }
NPV_PROVE(single_cell_blocks_stride3, 100) { strided_blocks<3>(); }
NPV_PROVE(single_cell_blocks_stride8, 100) { strided_blocks<8>(); }

#ifndef NPV_VC
#include "subgroup.hpp"
// exactly-once coverage of the blocks produced for any occupancy, range, local size, bins and stride
NPV_BOUNDED(block_iteration_sets, 1600, 1) {
  auto t = h_target();
  const int nc = (int)npv::sym("nc", 1, 30, 30);
  std::vector<int> np(nc);
  const int style = (int)npv::uni(0, 4), base = (int)npv::uni(0, 70);
  for (auto &x : np) x = style == 0 ? (int)npv::uni(0, 3) : style == 1 ? base : style == 2 ? base + (int)npv::uni(0, 6) : style == 3 ? (npv::uni(0, 3) ? 0 : (int)npv::uni(0, 90)) : (int)npv::uni(0, 90);
  npv::note("np", npv::show(np.data(), nc));
  const std::size_t L = 1ull << npv::uni(0, 6), S = npv::uni(0, 2) ? 1 : npv::uni(1, 5), nbin = npv::uni(1, 20);
  const std::size_t bytes = npv::uni(0, 2) ? 0 : npv::uni(1, 64);
  npv::note("L", std::to_string(L)); npv::note("S", std::to_string(S)); npv::note("nbin", std::to_string(nbin));
  ParticleLoopBlockIterationSet is(t, nc, np.data(), np.data());
  int a = 0, b = nc;
  std::vector<ParticleLoopBlockHost> bl;
  const int how = (int)npv::uni(0, 3);
  if (how == 0) bl = is.get_all_cells(nbin, L, bytes, S);
  else if (how == 1) { a = (int)npv::uni(0, nc - 1); b = a + 1; bl = is.get_single_cell(a, L, bytes, S); }
  else { a = (int)npv::uni(0, nc); b = (int)npv::uni(a, nc); bl = how == 2 ? is.get_range_cell(a, b, L, bytes, S) : is.get_generic(a, b, nbin, L, bytes, S); }
  npv::note("range", std::to_string(a) + ":" + std::to_string(b));
  std::vector<std::vector<int>> hit(nc), hit2(nc);
  for (int c = 0; c < nc; c++) { hit[c].assign(np[c], 0); hit2[c].assign(np[c], 0); }
  for (auto &x : bl) {
    auto R = x.loop_iteration_set;
    const std::size_t g0 = R.get_global_range()[0], g1 = R.get_global_range()[1], l1 = R.get_local_range()[1];
    NPV_CHECK(R.get_local_range()[0] == 1 && l1 >= 1 && g1 % l1 == 0 && l1 <= std::max<std::size_t>(L, 1), "work groups divide the range and respect the local size");
    NPV_CHECK(x.local_size == l1, "the recorded local size is the one used");
    NPV_CHECK(l1 * S * bytes <= t->device_limits.local_mem_size, "local memory of a group fits");
    for (std::size_t i = 0; i < g0; i++) for (std::size_t j = 0; j < g1; j++) {
      auto it = h_item(i, j / l1, j % l1, l1, g0, g1);
      std::size_t c, l;
      x.block_device.stride_get_cell_block(it, &c, &l);
      NPV_CHECK((int)c >= a && (int)c < b, "only selected cells are visited");
      const bool req = x.block_device.stride_work_item_required(c, l);
      NPV_CHECK(req || x.layer_bounds_check_required, "a block without bounds checks visits existing particles only");
      if (req) {
        const std::size_t e = x.block_device.stride_local_index_bound(c, l);
        NPV_CHECK(x.layer_bounds_check_required || e == S, "a block without bounds checks is full");
        for (std::size_t k = 0; k < e; k++) hit.at(c).at(l * S + k)++;
      }
      if (S == 1) {
        std::size_t c2, l2;
        x.block_device.get_cell_layer(it, &c2, &l2);
        NPV_CHECK(c2 == c && l2 == l, "cell and layer");
      }
      for (std::size_t k = 0; k < S; k++) {
        std::size_t c2, l2;
        x.block_device.get_interlaced_cell_layer(it, k, &c2, &l2);
        if ((int)l2 < np[c2]) hit2.at(c2).at(l2)++;
        else NPV_CHECK(x.layer_bounds_check_required, "a block without bounds checks visits existing particles only");
      }
    }
  }
  for (int c = 0; c < nc; c++) for (int l = 0; l < np[c]; l++) {
    const int want = c >= a && c < b;
    NPV_CHECK(hit[c][l] == want, "every selected particle is visited exactly once (blocks)");
    NPV_CHECK(hit2[c][l] == want, "every selected particle is visited exactly once (interlaced)");
  }
}
NPV_BOUNDED(binned_iteration_set, 400, 1) {
  const int nc = (int)npv::sym("nc", 1, 30, 30), nbin = (int)npv::sym("nbin", 1, 40, 40);
  std::vector<int> np(nc);
  for (auto &x : np) x = npv::uni(0, 3) ? (int)npv::uni(0, 40) : 0;
  const std::size_t L = 1ull << npv::uni(0, 6);
  ParticleLoopIterationSet is(nbin, nc, np.data());
  std::optional<int> cell;
  if (npv::uni(0, 1)) cell = (int)npv::uni(0, nc - 1);
  auto [n, R, off] = is.get(cell, L);
  std::vector<int> reach(nc, -1);
  std::size_t tot = 0;
  for (int i = 0; i < n; i++) {
    NPV_CHECK(R[i].get_global_range()[1] % R[i].get_local_range()[1] == 0, "work groups divide the range");
    for (std::size_t c = 0; c < R[i].get_global_range()[0]; c++) {
      const std::size_t cc = c + off[i];
      NPV_CHECK(cc < (std::size_t)nc && reach[cc] == -1, "a cell is in one bin only");
      reach[cc] = (int)R[i].get_global_range()[1];
    }
  }
  for (int c = 0; c < nc; c++) {
    if (cell && *cell != c) { NPV_CHECK(reach[c] == -1, "only the selected cell is visited"); continue; }
    NPV_CHECK(reach[c] >= np[c] || np[c] == 0, "every particle of the cell is covered");
    tot += np[c];
  }
  NPV_CHECK(is.iteration_set_size == tot, "the iteration set size is the number of particles");
}
// loops over groups and sub-groups: members once, indices identify the particle
NPV_BOUNDED(loops_visit_once, 480, 1) {
  gp::World w; w.history(2);
  w.target->parameters->get<SizeTParameter>("LOOP_NBIN")->value = npv::uni(1, 20);
  const int how = (int)npv::uni(0, 3);
  std::optional<int> o1, o2;
  int a = 0, b = w.ncell;
  if (how == 1) { a = (int)npv::uni(0, w.ncell - 1); b = a + 1; o1 = a; }
  else if (how >= 2) { a = (int)npv::uni(0, w.ncell); b = (int)npv::uni(a, w.ncell); o1 = a; o2 = b; }
  npv::note("range", std::to_string(a) + ":" + std::to_string(b));
  const int npart = (int)w.A->get_npart_local();
  const int mode = (int)npv::uni(0, 2);
  sg::SG s;
  if (mode == 1) s = sg::filter(w.A, sg::draw_pred(w));
  if (mode == 2) s = particle_sub_group(sg::filter(w.A, sg::draw_pred(w)));
  sg::Members mem = s ? sg::members(s, w.A) : sg::all(w.A);
  auto out = std::make_shared<LocalArray<INT>>(w.target, 7 * (npart + 1));
  std::vector<INT> z(7 * (npart + 1), 0);
  out->set(z);
  auto body = [=](auto I, auto ID, auto o) {
    const INT k = I.get_local_linear_index();
    o.fetch_add(7 * k, 1);
    o.fetch_add(7 * k + 1, ID.at(0)); o.fetch_add(7 * k + 2, I.cell); o.fetch_add(7 * k + 3, I.layer); o.fetch_add(7 * k + 4, I.get_loop_linear_index()); o.fetch_add(7 * k + 5, I.get_sub_linear_index()); o.fetch_add(7 * k + 6, I.loop_layer);
  };
  auto idx = Access::read(ParticleLoopIndex{}); auto id = Access::read(Sym<INT>("ID")); auto ad = Access::add(out);
  auto loop = s ? particle_loop(s, body, idx, id, ad) : particle_loop(w.A, body, idx, id, ad);
  const int times = (int)npv::uni(1, 2);
  for (int t = 0; t < times; t++) loop->execute(o1, o2);
  auto v = out->get();
  auto L = gp::layers(w.A);
  INT es = 0, les = 0, mes = 0;
  for (int c = 0; c < w.ncell; c++) {
    std::map<INT, INT> pos;
    { INT k = 0; for (auto l : mem[c]) pos[l] = k++; }
    for (INT l = 0; l < (INT)L[c].size(); l++) {
      const INT k = es + l;
      const bool sel = pos.count(l) && c >= a && c < b;
      NPV_CHECK(v[7 * k] == (sel ? times : 0), "each selected particle is visited exactly once, the others never");
      if (sel) {
        NPV_CHECK(v[7 * k + 1] == times * L[c][l].i.at("ID")[0] && v[7 * k + 2] == times * c && v[7 * k + 3] == times * l, "cell and layer identify the particle");
        NPV_CHECK(v[7 * k + 4] == times * (les + pos[l]), "the loop index counts the particles visited by the loop");
        NPV_CHECK(v[7 * k + 5] == times * (mes + pos[l]), "the sub index counts the members");
        NPV_CHECK(v[7 * k + 6] == times * pos[l], "the loop layer counts the members of the cell");
      }
    }
    es += L[c].size(); mes += mem[c].size(); if (c >= a && c < b) les += mem[c].size();
  }
  NPV_CHECK(v[7 * npart] == 0, "no particle that does not exist is visited");
}
#endif
