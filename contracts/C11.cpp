// C11: a sub-group always holds exactly the parent's particles that satisfy its selection, whatever happened in between
//@ design: Proved: a selection is made again exactly when a version it reads changed (ParticleDat or group), static sub-groups keep theirs, ephemeral properties are discarded then; the members a predicate selector collects of a group or of a parent sub-group are the particles that satisfy it, in their cells, each once. Bounded: histories of moves, writes, additions and removals between the queries of dynamic, static and nested sub-groups, compared to a list of particles.
//@ opts: {"smallloops": 8, "symunroll": 8}
//@ replace: ResourceStack<NESO::Particles::SubGroupSelectorResource>::get => npvr_resource: get returns a resource nobody else uses (C26)
//@ replace: get_resource<NESO::Particles::BufferDevice<int> => npvr_device_int: get_resource returns a buffer nobody else uses (C26)
//@ replace: restore_resource< => npvr_restore: restore_resource only takes the buffer back (C26)
//@ replace: BufferBase<int>::realloc_no_copy => npvr_room_int: realloc_no_copy provides room for the elements (C20)
//@ replace: SubGroupParticleMap::create\( => npvr_map_create: SubGroupParticleMap::create provides the rows of each cell one after the other (C12)
//@ replace: ParticleGroup::get_npart_local => npvr_npart_local: get_npart_local is the number of particles of the group
//@ assume: particle_loop visits every particle (C04, C05): any two particles, in any order, the counters being those the visits of the others leave
//@ replace: EphemeralDats::reset_ephemeral_dats => npvr_reset_ephemeral: reset_ephemeral_dats discards the ephemeral properties
#define NPV_LOOP_STATE
#include <neso_particles.hpp>
#include <npv.hpp>
#include "subgroup.hpp"
#ifdef NPV_VC
using namespace NESO::Particles;
#include "src/particle_group.cpp"
#include "src/particle_sub_group/sub_group_selector_base.cpp"
#include "src/particle_sub_group/particle_sub_group_base.cpp"
namespace si = ParticleSubGroupImplementation;
// a selector that counts how often it makes its selection
struct Counted : si::SubGroupSelectorBase {
  int made = 0;
  void create(si::Selection *s) override { made++; s->npart_local = npart; s->h_npart_cell = &np; s->d_npart_cell = &np; s->d_npart_cell_es = &es; }
  int npart, np; INT es;
};
struct Versions {
  npv::storage<ParticleGroup> g;
  npv::storage<Counted> s;
  npv::storage<ParticleSubGroup> sub;
  int64_t v[3], seen[2], gv, gseen; // of the two properties the predicate reads and of one it does not read
  bool always[3];
  int resets; INT reset_n; int *reset_np;
};
static Versions *V;
extern "C" void npvr_reset_ephemeral(EphemeralDats *e, INT n, int *h, int *d, INT *es) { V->resets++; V->reset_n = n; V->reset_np = h; }
static std::map<ParticleGroup::ParticleDatVersion, int64_t> *seen() { return &V->s.get()->particle_dat_versions; }
static int64_t &recorded(int k) { return k ? seen()->at(Sym<INT>("A")) : seen()->at(Sym<REAL>("P")); }
static void versions(bool after_get) { // any versions and recorded versions
  auto m = V = new Versions();
  auto g = m->g.get();
  g->debug_sub_group_create = 0; g->debug_sub_group_indent = 0;
  for (int k = 0; k < 3; k++) {
    m->v[k] = npv::sym(k == 0 ? "v0" : k == 1 ? "v1" : "v2", 1, 1LL << 60);
    m->always[k] = !after_get && npv::sym(k == 0 ? "always0" : k == 1 ? "always1" : "always2", 0, 1);
  }
  for (int k = 0; k < 2; k++) m->seen[k] = after_get ? m->v[k] : npv::sym(k ? "seen1" : "seen0", 0, 1LL << 60);
  m->gv = npv::sym("group", 1, 1LL << 60);
  m->gseen = after_get ? m->gv : npv::sym("group_seen", 0, 1LL << 60);
  g->particle_group_version = m->gv;
  using GV = std::map<ParticleGroup::ParticleDatVersion, std::tuple<std::int64_t, bool>>;
  auto gm = new ((void *)&g->particle_dat_versions) GV();
  (*gm)[Sym<REAL>("P")] = {m->v[0], m->always[0]};
  (*gm)[Sym<INT>("A")] = {m->v[1], m->always[1]};
  (*gm)[Sym<REAL>("Q")] = {m->v[2], m->always[2]};
  auto s = new (m->s.get()) Counted();
  s->particle_group = npv::raw(g);
  s->particle_dat_versions[Sym<REAL>("P")] = m->seen[0];
  s->particle_dat_versions[Sym<INT>("A")] = m->seen[1];
  s->particle_group_version = m->gseen;
  s->npart = (int)npv::sym("members", 0, 1 << 30);
}
NPV_PROVE(version_check, 0) {
  versions(false);
  auto m = V;
  const bool update = npv::sym("update", 0, 1);
  const bool r = m->g.get()->check_validation(m->s.get()->particle_dat_versions, update);
  const bool stale = (m->v[0] != m->seen[0]) | (m->v[1] != m->seen[1]);
  NPV_CHECK(r == (stale | m->always[0] | m->always[1]), "an update is required exactly when a property the predicate reads has changed or may change at any time");
  for (int k = 0; k < 2; k++) NPV_CHECK(recorded(k) == (update ? m->v[k] : m->seen[k]), "the versions are recorded exactly when asked for");
  const bool g = m->g.get()->check_validation(m->s.get()->particle_group_version, update);
  NPV_CHECK(g == (m->gv != m->gseen), "an update is required exactly when particles were added, removed or moved");
  NPV_CHECK(m->s.get()->particle_group_version == (update ? m->gv : m->gseen), "the version of the group is recorded exactly when asked for");
  NPV_REACH("end");
}
NPV_PROVE(selection_is_made_again, 0) {
  versions(false);
  auto m = V;
  auto s = m->s.get();
  si::Selection sel;
  const bool stale = (m->v[0] != m->seen[0]) | (m->v[1] != m->seen[1]) | m->always[0] | m->always[1] | (m->gv != m->gseen);
  bool d, g;
  NPV_CHECK(s->update_required(&d, &g) == stale && s->made == 0, "whether an update is required");
  NPV_CHECK(s->get(&sel) == stale && s->made == (stale ? 1 : 0), "the selection is made again exactly when it is out of date");
  for (int k = 0; k < 2; k++) NPV_CHECK(recorded(k) == m->v[k], "the versions of the selection are recorded");
  NPV_CHECK(s->particle_group_version == m->gv, "the version of the group is recorded");
  NPV_REACH("end");
}
template <int which> static void after_change() {
  versions(true);
  auto m = V;
  auto s = m->s.get();
  si::Selection sel;
  NPV_CHECK(!s->get(&sel), "a current selection is kept");
  const int mode = (int)npv::sym("mode", 0, 1);
  if (which == 0) m->g.get()->invalidate_callback_real(Sym<REAL>("P"), mode);
  if (which == 1) m->g.get()->invalidate_callback_int(Sym<INT>("A"), mode);
  if (which == 2) m->g.get()->invalidate_callback_real(Sym<REAL>("Q"), mode);
  if (which == 3) m->g.get()->invalidate_group_version();
  NPV_CHECK(s->get(&sel) == (which != 2) && s->made == (which != 2), "a change of a property the predicate reads or of the particles makes the selection out of date");
  NPV_CHECK(s->get(&sel) == ((which < 2) & mode), "the selection is current until the next change");
  NPV_REACH("end");
}
NPV_PROVE(change_of_real_property, 0) { after_change<0>(); }
NPV_PROVE(change_of_int_property, 0) { after_change<1>(); }
NPV_PROVE(change_of_other_property, 0) { after_change<2>(); }
NPV_PROVE(change_of_particles, 0) { after_change<3>(); }
static ParticleSubGroup *over(bool is_static) {
  auto m = V;
  auto p = m->sub.get();
  p->is_static = is_static;
  new ((void *)&p->particle_group) ParticleGroupSharedPtr(npv::raw(m->g.get()));
  new ((void *)&p->selector) si::SubGroupSelectorBaseSharedPtr(npv::raw<si::SubGroupSelectorBase>(m->s.get()));
  p->npart_local = npv::sym("before", 0, 1 << 30);
  p->selection.npart_local = (int)p->npart_local;
  p->version = npv::sym("version", 1, 1LL << 60);
  return p;
}
NPV_PROVE(sub_group_is_current, 0) {
  versions(false);
  auto m = V;
  auto s = m->s.get();
  auto p = over(false);
  const INT before = p->npart_local, version = p->version;
  const bool stale = (m->v[0] != m->seen[0]) | (m->v[1] != m->seen[1]) | m->always[0] | m->always[1] | (m->gv != m->gseen);
  const INT n = p->get_npart_local();
  NPV_CHECK(n == (stale ? s->npart : before) && p->selection.npart_local == n, "the number of members is that of the current selection");
  NPV_CHECK(s->made == (stale ? 1 : 0) && p->version == version + (stale ? 1 : 0), "the version of the sub-group changes with its members");
  NPV_CHECK(V->resets == (stale ? 1 : 0), "the ephemeral properties of former members are discarded");
  NPV_REACH("end");
}
NPV_PROVE(static_sub_group_is_kept, 0) {
  versions(false);
  auto m = V;
  npv::assume(m->gv == m->gseen); // it is valid: no particle was added, removed or moved
  auto p = over(true);
  const INT before = p->npart_local, version = p->version;
  NPV_CHECK(p->is_valid(), "a static sub-group is valid while the particles keep their places");
  NPV_CHECK(!p->create_if_required() && p->get_npart_local() == before, "a static sub-group keeps its members");
  NPV_CHECK(m->s.get()->made == 0 && p->version == version && m->resets == 0, "nothing is made again");
  p->static_status(false);
  const bool stale = (m->v[0] != m->seen[0]) | (m->v[1] != m->seen[1]) | m->always[0] | m->always[1];
  NPV_CHECK(!p->is_static && p->get_npart_local() == (stale ? m->s.get()->npart : before), "a sub-group that is not static any more follows the particles");
  NPV_REACH("end");
}
NPV_PROVE(static_sub_group_validity, 0) {
  versions(false);
  auto p = over(true);
  NPV_CHECK(p->is_valid() == (V->gv == V->gseen), "a static sub-group is invalid once particles were added, removed or moved");
  NPV_CHECK(V->s.get()->particle_group_version == V->gseen, "asking does not change the validity");
  NPV_REACH("end");
}
NPV_PROVE(made_static, 0) {
  versions(false);
  auto m = V;
  auto p = over(false);
  const INT before = p->npart_local;
  const bool stale = (m->v[0] != m->seen[0]) | (m->v[1] != m->seen[1]) | m->always[0] | m->always[1] | (m->gv != m->gseen);
  NPV_CHECK(p->static_status(true), "the sub-group is static");
  NPV_CHECK(p->npart_local == (stale ? m->s.get()->npart : before) && p->is_valid(), "the members are those at the time it is made static");
  NPV_REACH("end");
}
NPV_PROVE(ephemeral_is_discarded, 0) {
  versions(false);
  auto m = V;
  const bool is_static = npv::sym("static", 0, 1);
  auto p = over(is_static);
  const bool dats = (m->v[0] != m->seen[0]) | (m->v[1] != m->seen[1]) | m->always[0] | m->always[1], group = m->gv != m->gseen;
  NPV_CHECK(p->ParticleSubGroup::invalidate_ephemeral_dats_if_required() == (is_static ? group : group | dats), "ephemeral properties are discarded exactly when the members may have changed");
  NPV_CHECK(m->s.get()->made == 0 && recorded(0) == m->seen[0], "the selection is not made and stays out of date");
  NPV_REACH("end");
}
// ---- the selector with a predicate
#include "vcloop.hpp"
#include "vcdats.hpp"
// the loops of the selector visit two particles
template <typename F> struct Deferred : ParticleLoopBase {
  F f;
  Deferred(F f) : f(f) {}
  std::size_t get_local_size() override { return 1; }
  void profiling_region_metrics(const std::size_t) override {}
  void execute(const std::optional<int>, const std::optional<int>) override { f(); }
  void submit(const std::optional<int>, const std::optional<int>) override { f(); }
  void wait() override {}
};
namespace NESO::Particles::Access {
template <typename G, typename K, typename... A> ParticleLoopSharedPtr particle_loop(const char *, std::shared_ptr<G> g, K k, A... a) {
  auto f = [=]() { npv::loop::apply(k, a...); };
  return npv::raw<ParticleLoopBase>(new Deferred<decltype(f)>(f));
}
} // namespace NESO::Particles::Access
#include "src/particle_sub_group/sub_group_selector.cpp"
#include "src/particle_sub_group/sub_group_particle_map.cpp"
#include "vcmesh.hpp"
struct Pick {
  int64_t nc, c[2], l[2], n[2]; // two particles; n members of their cells were counted before them
  int required[2];
  int *np, *F; INT *es; // particles and members per cell
  INT **to;
  int64_t npart;
  int nbuf, maps;
  SYCLTargetSharedPtr T;
  npv::storage<ParticleGroup> g;
  npv::storage<ParticleSubGroup> sub;
  npv::storage<Counted> psel;
  npv::storage<Domain> dom;
  npv::storage<SubGroupParticleMap> pm;
  npv::storage<SubGroupSelectorResource> res;
  npv::storage<LocalArray<int *>> maps1;
  npv::storage<LocalArray<INT **>> maps2;
  npv::storage<BufferDevice<int>> dev;
  npv::storage<BufferDeviceHost<int>> nph;
  npv::storage<BufferDeviceHost<INT>> esh;
  npv::storage<BufferDevice<INT *>> ds;
};
static Pick *P;
extern "C" std::shared_ptr<SubGroupSelectorResource> npvr_resource() { return npv::raw(P->res.get()); }
extern "C" std::shared_ptr<BufferDevice<int>> npvr_device_int() {
  NPV_CHECK(P->nbuf == 0, "how: one buffer is taken"); P->nbuf++;
  auto b = P->dev.get();
  new (b) BufferDevice<int>(P->T, 1);
  return npv::raw(b);
}
extern "C" void npvr_restore() {}
extern "C" void npvr_room_int(BufferBase<int> *b, size_t n) { b->ptr = (int *)::operator new(n * sizeof(int)); b->size = n; }
extern "C" int npvr_npart_local() { return (int)P->npart; }
static int *counter(int64_t c) { return P->nph.get()->d_buffer.ptr + P->nc + c * NESO_PARTICLES_CACHELINE_NUM_int; }
static void before_visit(int loop, int j) {
  if (loop) return;
  if (j == 0) for (int k = 0; k < 2; k++) NPV_CHECK(*counter(P->c[k]) == 0, "how: counting starts at zero");
  *counter(P->c[j]) = (int)P->n[j];
}
static void after_visit(int loop, int j) {
  if (loop) return;
  NPV_CHECK(*counter(P->c[j]) == P->n[j] + P->required[j], "how: a particle is counted exactly when the predicate holds");
  if (j == 0) return;
  const int64_t nc = P->nc;
  int *F = P->F, *d = P->nph.get()->d_buffer.ptr + nc;
  for (int64_t c = 0; c < nc; c++) d[c * NESO_PARTICLES_CACHELINE_NUM_int] = F[c];
}
extern "C" void npvr_map_create(SubGroupParticleMap *m, int c0, int c1, const int *n, const INT *es) {
  NPV_CHECK(c0 == 0 && c1 == P->nc, "rows for all cells");
  const int64_t nc = P->nc;
  const int64_t last = npv::sum(P->F, nc - 1);
  for (int k = 0; k < 2; k++) {
    const int64_t c = P->c[k], o = P->c[1 - k];
    NPV_CHECK(n[c] == P->F[c], "the number of members of a cell");
    NPV_CHECK(es[c] == npv::sum(P->F, c), "the members of the cells before");
    NPV_CHECK((0 <= es[c]) & (es[c] + n[c] <= es[nc - 1] + n[nc - 1]), "the rows end with those of the last cell");
    NPV_CHECK((c >= o) | (es[c] + n[c] <= es[o]), "the rows of a cell are before those of the next");
  }
  P->maps++;
}
template <bool whole> static void pick() {
  auto m = P = new Pick();
  m->T = h_target();
  const int64_t nc = m->nc = npv::sym("ncell", 1, 1 << 20);
  m->np = npv::array<int>("np", nc, 0, 1 << 24);
  m->F = npv::array<int>("members", nc, 0, 1 << 24);
  m->es = npv::array<INT>("es", nc, 0, 1 << 30);
  m->to = npv::ragged<INT>("to", nc, m->F, 0, 1 << 24);
  m->npart = npv::sym("npart", 0, 1 << 30);
  INT ***A = npv::celldat<INT>("A", nc, 1, m->np);
  npv::loop::begin(0, 0, 0);
  auto S = npv::loop::S;
  S->n = 2; S->before = before_visit; S->after = after_visit;
  npv::loop::bind(Sym<INT>("A"), A);
  for (int k = 0; k < 2; k++) {
    const int64_t c = m->c[k] = npv::sym(k ? "c1" : "c0", 0, 1 << 20), l = m->l[k] = npv::sym(k ? "l1" : "l0", 0, 1 << 24);
    npv::assume(c < nc); npv::assume(l < m->np[c]);
    m->n[k] = npv::sym(k ? "n1" : "n0", 0, 1 << 24);
    m->required[k] = A[c][0][l] > 3;
    npv::assume(m->n[k] + m->required[k] <= m->F[c]);
    npv::assume(m->es[c] + m->np[c] <= m->npart);
    S->at[k][0] = c; S->at[k][1] = l; S->at[k][2] = npv::sym(k ? "ll1" : "ll0", 0, 1 << 24);
  }
  npv::assume((m->c[0] != m->c[1]) | (m->l[0] != m->l[1]));
  npv::assume((m->c[0] >= m->c[1]) | (m->es[m->c[0]] + m->np[m->c[0]] <= m->es[m->c[1]]));
  npv::assume((m->c[1] >= m->c[0]) | (m->es[m->c[1]] + m->np[m->c[1]] <= m->es[m->c[0]]));
  npv::assume((m->c[0] != m->c[1]) | (m->n[0] + m->required[0] <= m->n[1]));
  npv::assume(npv::sum(m->F, nc - 1) + m->F[nc - 1] <= 1 << 30);
  S->index.npart_cell_es = m->es; S->index.npart_cell_es_lb = m->es; S->index.starting_cell = 0;
  auto g = m->g.get();
  g->sycl_target = m->T;
  g->debug_sub_group_create = 0;
  m->dom.get()->mesh = vc_mesh((int)nc);
  new ((void *)&g->domain) DomainSharedPtr(npv::raw(m->dom.get()));
  auto pm = m->pm.get();
  new (m->nph.get()) BufferDeviceHost<int>(m->T, nc + nc * NESO_PARTICLES_CACHELINE_NUM_int);
  new (m->esh.get()) BufferDeviceHost<INT>(m->T, nc);
  m->ds.get()->ptr = m->to;
  new ((void *)&pm->dh_npart_cell) std::shared_ptr<BufferDeviceHost<int>>(npv::raw(m->nph.get()));
  new ((void *)&pm->dh_npart_cell_es) std::shared_ptr<BufferDeviceHost<INT>>(npv::raw(m->esh.get()));
  new ((void *)&pm->d_cell_starts) std::shared_ptr<BufferDevice<INT *>>(npv::raw(m->ds.get()));
  auto r = new (m->res.get()) SubGroupSelectorResource();
  r->map_ptrs = npv::raw(new (m->maps1.get()) LocalArray<int *>(m->T, 2));
  r->map_cell_to_particles_ptrs = npv::raw(new (m->maps2.get()) LocalArray<INT **>(m->T, 1));
  r->sub_group_particle_map = npv::raw(pm);
  auto kernel = [=](auto A) { return A.at(0) > 3; };
  npv::storage<si::SubGroupSelector> ss;
  auto s = ss.get();
  if constexpr (whole) {
    new (s) si::SubGroupSelector(npv::raw(g), kernel, Access::read(Sym<INT>("A")));
  } else {
    auto ps = new (m->psel.get()) Counted();
    ps->particle_dat_versions[Sym<REAL>("P")] = 7;
    auto p = m->sub.get();
    new ((void *)&p->particle_group) ParticleGroupSharedPtr(npv::raw(g));
    new ((void *)&p->selector) si::SubGroupSelectorBaseSharedPtr(npv::raw<si::SubGroupSelectorBase>(ps));
    new (s) si::SubGroupSelector(npv::raw(p), kernel, Access::read(Sym<INT>("A")));
    NPV_CHECK(s->depends_on(Sym<REAL>("P")), "what the parent depends on is a dependency");
  }
  NPV_CHECK(s->depends_on(Sym<INT>("A")) && S->applied == 0, "a property the predicate reads is a dependency");
  NPV_CHECK(s->particle_group.get() == g, "the group of the particles");
  si::Selection sel;
  s->si::SubGroupSelector::create(&sel);
  NPV_CHECK(S->applied == 2 && m->maps == 1, "the particles are visited");
  NPV_CHECK(sel.ncell == nc && sel.npart_local == npv::sum(m->F, nc), "the number of members");
  for (int k = 0; k < 2; k++) {
    const int64_t c = m->c[k], l = m->l[k];
    NPV_CHECK(sel.h_npart_cell[c] == m->F[c] && sel.d_npart_cell[c] == m->F[c] && sel.d_npart_cell_es[c] == npv::sum(m->F, c), "the number of members of a cell");
    if (m->required[k]) NPV_CHECK(sel.d_map_cells_to_particles.map_ptr[c][m->n[k]] == l, "a particle is in the row it was counted for");
  }
  NPV_REACH("end");
}
NPV_PROVE(members_of_group, 0) { pick<true>(); }
NPV_PROVE(members_of_sub_group, 0) { pick<false>(); }
#endif
#ifndef NPV_VC
using namespace sg;
static void mutate_values(gp::World &w, SG s) {
  const INT k = w.lr.uni(0, 50);
  const int kind = (int)w.lr.uni(0, 6);
  auto A = w.A;
  switch (kind) {
  case 0: particle_loop(A, [=](auto W, auto ID) { W.at(0) = (REAL)((ID.at(0) * 5 + k) % 19 - 9); }, Access::write(Sym<REAL>("W")), Access::read(Sym<INT>("ID")))->execute(); break;
  case 1: particle_loop(A, [=](auto Q, auto ID) { Q.at(1) = (ID.at(0) * 3 + k) % 10; Q.at(0) = (ID.at(0) * 7 + k) % 199 - 99; }, Access::write(Sym<INT>("Q")), Access::read(Sym<INT>("ID")))->execute(); break;
  case 2: particle_loop(A, [=](auto V, auto ID) { V.at(1) = (REAL)((ID.at(0) + k) % 5) - 2.0; }, Access::write(Sym<REAL>("V")), Access::read(Sym<INT>("ID")))->execute(); break;
  case 3: if (s) particle_loop(s, [=](auto W, auto Q) { W.at(0) += 5; Q.at(1) += 1; Q.at(0) = -Q.at(0); }, Access::write(Sym<REAL>("W")), Access::write(Sym<INT>("Q")))->execute(); break;
  case 4: { auto sv = std::make_shared<SymVector<REAL>>(A, std::vector<Sym<REAL>>{Sym<REAL>("V"), Sym<REAL>("W")});
    particle_loop(A, [=](auto S, auto ID) { S.at(1, 0) = (REAL)((ID.at(0) + k) % 17) - 8; S.at(0, 1) = -S.at(0, 1); }, Access::write(sv), Access::read(Sym<INT>("ID")))->execute(); break; }
  case 5: for (int c = 0; c < w.ncell; c++) if (A->get_npart_cell(c) && w.lr.one_in(2)) {
      auto d = A->get_cell(Sym<REAL>("W"), c);
      for (int l = 0; l < d->nrow; l++) d->at(l, 0) = (REAL)w.lr.uni(-9, 9);
      A->get_dat(Sym<REAL>("W"))->cell_dat.set_cell(c, d);
      particle_loop(A, [=](auto W) { W.at(0) += 0; }, Access::write(Sym<REAL>("W")))->execute();
    } break;
  case 6: { auto sp = ParticleSpec(ParticleProp(Sym<REAL>("W"), 1)); (void)sp; break; }
  }
}
NPV_BOUNDED(membership_follows_the_particles, 320, 1) {
  gp::World w;
  w.history(1);
  const Pred p0 = draw_pred(w), p1 = draw_pred(w);
  SG a = filter(w.A, p0), b = filter(a, p1), whole = particle_sub_group(w.A);
  const int64_t n = npv::sym("steps", 1, 5, 5);
  for (int64_t k = 0; k < n; k++) {
    auto look = [&](SG s, int which) {
      auto L = gp::layers(w.A);
      Members ref = filter_ref(all(w.A), p0, L);
      if (which == 1) ref = filter_ref(ref, p1, L);
      if (which == 2) ref = all(w.A);
      NPV_CHECK(sorted(members(s, w.A)) == sorted(ref), "the sub-group holds exactly the particles that satisfy its selection");
    };
    // queries that do not use the members must not make a later use see stale members
    for (SG s : {a, b, whole}) if (w.lr.one_in(2)) {
      const int q = (int)w.lr.uni(0, 3);
      if (q == 0) NPV_CHECK(!s->contains_ephemeral_dat(Sym<REAL>("NOT_THERE")), "no ephemeral property that was never added");
      if (q == 1) NPV_CHECK(s->is_valid(), "a non-static sub-group is always valid");
      if (q == 2) NPV_CHECK(!s->static_status(), "the sub-group was not made static");
      if (q == 3) (void)s->get_version();
    }
    const int order = (int)w.lr.uni(0, 3);
    npv::note("p", std::to_string(p0.kind) + std::to_string(p1.kind) + std::to_string(order));
    if (order == 0) { look(a, 0); look(b, 1); }
    if (order == 1) { look(b, 1); look(a, 0); }
    if (order == 2) { look(b, 1); look(whole, 2); }
    if (order == 3) { look(whole, 2); look(a, 0); }
    if (w.lr.one_in(2)) mutate_values(w, w.lr.one_in(2) ? a : b); else w.random_op();
  }
}
NPV_BOUNDED(replaced_properties, 160, 1) {
  gp::World w;
  w.history(1);
  auto A = w.A;
  const Sym<REAL> k("K0"); const Sym<INT> e("E0");
  A->add_particle_dat(k, 1);
  auto fill = [&](INT f) { particle_loop(A, [=](auto K, auto ID) { K.at(0) = (REAL)((ID.at(0) * f) % 7); }, Access::write(k), Access::read(Sym<INT>("ID")))->execute(); };
  for (int n = (int)npv::uni(0, 3); n--;) fill(npv::uni(-9, 9));
  auto s = particle_sub_group(A, [=](auto K) { return K.at(0) > 0.0; }, Access::read(k));
  auto same = [&] {
    auto mem = sg::members(s, A);
    auto L = gp::layers(A);
    for (size_t c = 0; c < L.size(); c++) {
      std::set<INT> m(mem[c].begin(), mem[c].end());
      for (size_t l = 0; l < L[c].size(); l++) NPV_CHECK((bool)m.count((INT)l) == (L[c][l].r.at("K0").at(0) > 0.0), "membership follows the property of the name that the group has");
    }
  };
  for (int it = (int)npv::uni(1, 5); it--;) {
    switch (npv::uni(0, 2)) {
    case 0: A->remove_particle_dat(k); A->add_particle_dat(k, (int)npv::uni(1, 3)); for (int n = (int)npv::uni(0, 3); n--;) fill(npv::uni(-9, 9)); break;
    case 1: same(); break;
    default: {
      // ephemeral properties of the members, removed and added again
      s->get_npart_local();
      if (s->contains_ephemeral_dat(e)) s->remove_ephemeral_dat(e);
      const int nc = (int)npv::uni(1, 4); const INT f = npv::uni(-9, 9);
      s->add_ephemeral_dat(e, nc);
      A->remove_particle_dat(Sym<INT>("Q")); A->add_particle_dat(Sym<INT>("Q"), nc);
      const Sym<INT> q("Q");
      particle_loop(s, [=](auto E, auto ID) { for (int x = 0; x < nc; x++) E.at_ephemeral(0, x) = ID.at(0) * f + x; }, Access::write(sym_vector<INT>(A, {e})), Access::read(Sym<INT>("ID")))->execute();
      particle_loop(s, [=](auto E, auto Q) { for (int x = 0; x < nc; x++) Q.at(0, x) = E.at_ephemeral(x); }, Access::read(e), Access::write(sym_vector<INT>(A, {q})))->execute();
      auto mem = sg::members(s, A);
      auto L = gp::layers(A);
      for (size_t c = 0; c < L.size(); c++) for (INT l : mem[c]) for (int x = 0; x < nc; x++) NPV_CHECK(L[c][l].i["Q"].at(x) == L[c][l].i["ID"][0] * f + x, "an ephemeral property holds what was stored in it");
    } }
  }
  same();
}
NPV_BOUNDED(static_sub_group_is_frozen, 160, 1) {
  gp::World w;
  w.history(1);
  const Pred p0 = draw_pred(w), p1 = draw_pred(w);
  SG base = filter(w.A, p0);
  SG s = npv::sym("how", 0, 1, 1) ? filter(base, p1) : filter(w.A, p1);
  s->static_status(true);
  NPV_CHECK(s->static_status(), "a sub-group made static reports so");
  const Members m0 = sorted(members(s, w.A));
  for (int k = 0; k < 2; k++) { mutate_values(w, w.lr.one_in(2) ? base : s); NPV_CHECK(s->is_valid(), "changing values keeps a static sub-group valid"); NPV_CHECK(sorted(members(s, w.A)) == m0, "a static sub-group keeps its particles when values change"); }
  const int64_t op = npv::sym("op", 0, 4, 4);
  if (op == 0) w.add(1 + w.some());
  if (op == 1) { auto c = w.choose(2); if (c.first.empty()) return; w.A->remove_particles((int)c.first.size(), c.first, c.second); }
  if (op == 2) { if (w.A->get_npart_local() == 0 || w.ncell < 2) return;
    const INT nc = w.ncell; particle_loop(w.A, [=](auto C) { C.at(0) = (C.at(0) + 1) % nc; }, Access::write(Sym<INT>("CELL_ID")))->execute(); w.A->cell_move(); }
  if (op == 3) w.A->clear();
  if (op == 4) { if (w.A->get_npart_local() == 0) return; auto t = filter(w.A, Pred{4, 0, 4}); w.A->remove_particles(t); }
  NPV_CHECK(!s->is_valid(), "a static sub-group is invalid after particles were added, removed or moved");
  NPV_CHECK(npv::expect_assert([&] { s->get_npart_local(); }), "an invalid static sub-group cannot be used");
}
NPV_BOUNDED(sub_group_get_particles, 160, 1) {
  gp::World w;
  w.history(1);
  SG s = npv::sym("whole", 0, 3, 3) ? filter(w.A, draw_pred(w)) : particle_sub_group(w.A);
  Members m = members(s, w.A);
  auto L = gp::layers(w.A);
  std::vector<INT> cells, lay, real;
  for (size_t c = 0; c < m.size(); c++) for (size_t k = 0; k < m[c].size(); k++) if (w.lr.one_in(2)) { cells.push_back(c); lay.push_back(k); real.push_back(m[c][k]); }
  auto ps = s->get_particles(cells, lay);
  NPV_CHECK(ps->npart == (int)cells.size(), "as many particles as asked for");
  for (size_t k = 0; k < cells.size(); k++) {
    auto &q = L[cells[k]][real[k]];
    for (auto &x : q.r) for (size_t c = 0; c < x.second.size(); c++) NPV_CHECK(ps->at(Sym<REAL>(x.first), (int)k, (int)c) == x.second[c], "copied real values are the particle's");
    for (auto &x : q.i) for (size_t c = 0; c < x.second.size(); c++) NPV_CHECK(ps->at(Sym<INT>(x.first), (int)k, (int)c) == x.second[c], "copied integer values are the particle's");
  }
}
#endif
