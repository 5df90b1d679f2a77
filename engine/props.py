"""The property list; `python3-vt engine/props.py` regenerates properties.jsonl and MANIFEST.json."""
import json, os, sys, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))


I = "include/neso_particles/"
prop("C01", "Parallel scans and transposes equal their sequential definition",
     "For every length, value and device configuration, an exclusive prefix sum (single sequence, blocked, or many sequences at once) writes exactly the running sum before each element, and a matrix transpose writes every element of the transposed matrix. No element outside the output is written.",
     ["inputs", "configurations", "schedules"], "all lengths including 0 and 1, all values, all work-group sizes and compute unit counts",
     "The tests use a few fixed sizes on one device configuration; block boundaries, single row/column shapes and other work-group sizes are not reached.",
     [I + "algorithms/common.hpp", "src/algorithms/common.cpp"], [("joint_exclusive_scan, joint_exclusive_scan_n, matrix_transpose", I + "algorithms/common.hpp")])
prop("C02", "Device math and data-structure primitives meet their mathematical definition",
     "Small dense linear algebra, integer and comparison helpers available inside kernels return the mathematical value for every argument in their domain: matrix products, inverses, cross and dot products, sorting, searching and reductions.",
     ["inputs"], "all argument values in the domain",
     "Tests evaluate a handful of fixed arguments.",
     [I + "device_functions.hpp", I + "utility.hpp"], [("device functions", I + "device_functions.hpp")])
prop("C03", "Work decompositions tile the work items exactly once",
     "For every number of work items and compute units, one-dimensional decompositions partition the items into contiguous, balanced, non-overlapping pieces that cover everything, and their inverse names the owning piece. Rounding helpers and main/peel iteration ranges cover every item, stay within one work-group of the count, and respect device limits.",
     ["inputs", "configurations"], "all item counts, piece counts and work-group sizes",
     "Tests sample a few counts; off-by-one errors at particular remainders are not reached.",
     [I + "compute_target.hpp", "src/compute_target.cpp", I + "utility.hpp", I + "device_limits.hpp"], [("get_decomp_1d, get_decomp_1d_inverse, get_nd_range_peel_1d, get_next_multiple", I + "typedefs.hpp, " + I + "utility.hpp")])
prop("C04", "Loops visit every selected particle exactly once",
     "A particle loop over a whole group, one cell, or a range of cells calls its kernel exactly once for each particle present in the selected cells and for no other, with the cell and layer indices and linear indices that identify that particle, whatever the work-group size.",
     ["inputs", "histories", "configurations"], "all cell occupancies, cell ranges, local sizes and strides",
     "Tests use near-uniform occupancies, where mistakes in padding and cell offsets do not show.",
     [I + "loop/particle_loop_iteration_set.hpp", "src/loop/particle_loop_iteration_set.cpp", I + "loop/particle_loop.hpp"],
     [("ParticleLoopBlockIterationSet, ParticleLoop::execute", I + "loop/particle_loop.hpp")])
prop("C05", "Loop arguments have the semantics of their access mode",
     "Values read in a kernel are the stored ones, writes reach exactly the component of the particle named, and add/min/max style arguments end up as the initial value combined with every contribution once, for particle data, per-cell data, arrays and symbol vectors. Data not written by the kernel is unchanged.",
     ["inputs", "histories", "schedules"], "all occupancies, component counts, access modes, loop execution orders and cell ranges",
     "Tests read back a few values; lost or duplicated contributions and writes to neighbouring components need unusual shapes.",
     [I + "loop/particle_loop.hpp", I + "loop/particle_loop_args.hpp", I + "loop/pli_particle_dat.hpp", I + "containers/sym_vector.hpp"],
     [("create_kernel_arg / pre_loop / post_loop", I + "loop/particle_loop_args.hpp")])
prop("C06", "Removal removes exactly the named particles",
     "Removing particles (by cell and layer, by sub-group, by flagged value, or all of them) removes exactly those particles and leaves every property of every other particle of the group unchanged and consistently indexed, for any selection, order and history.",
     ["inputs", "histories"], "all selections (none, all, trailing or leading rows), orders of the request and earlier operations",
     "Tests remove a few regular patterns; the compaction of rows into holes depends on the exact pattern of removed and trailing rows.",
     [I + "particle_group.hpp", "src/particle_group.cpp", I + "cell_dat_compression.hpp", I + "particle_remover.hpp"],
     [("LayerCompressor, ParticleGroup::remove_particles", I + "cell_dat_compression.hpp")])
prop("C07", "Added particles appear once with the values given",
     "Adding particles (from a host particle set or another group's selection) makes each appear exactly once in its cell with the values given, zero for properties not given, and changes no existing particle; reading particles back returns the stored values. Adding or removing a property leaves all the others as they were.",
     ["inputs", "histories"], "all counts, cells, missing properties and earlier operations",
     "Tests add a few particle sets to empty groups.",
     [I + "particle_group.hpp", "src/particle_group.cpp", I + "particle_set.hpp", "src/particle_set.cpp", I + "particle_dat.hpp"],
     [("ParticleGroup::add_particles_local, ParticleDatT::append_particle_data, ParticleGroup::get_particles", "src/particle_group.cpp")])
prop("C08", "Cell moves re-bin particles without loss, duplication or alteration",
     "After particles' cell ids change, a cell move places each particle in the cell its id names with all its values unchanged, loses and duplicates none, and leaves group and property counts consistent.",
     ["inputs", "histories"], "all assignments of new cell ids, including every particle moving and swaps",
     "Tests move particles in regular patterns.",
     ["src/cell_dat_move.cpp", I + "cell_dat_move.hpp", I + "cell_dat_compression.hpp"], [("CellMove::move", "src/cell_dat_move.cpp")])
prop("C09", "Particle packing and unpacking are inverse and lay out data consistently",
     "Packing particles for communication and unpacking them restores every property of every particle, for any set of properties, component counts and destinations; nothing is written outside the rows given.",
     ["inputs"], "all property sets, counts per destination rank and orders",
     "Tests use one particle specification.",
     [I + "packing_unpacking.hpp", "src/packing_unpacking.cpp"], [("ParticlePacker::pack, ParticleUnpacker::unpack", "src/packing_unpacking.cpp")])
prop("C10", "Moves between ranks deliver every particle once, to the owner of its position",
     "A move between ranks conserves the global collection of particles and all their values, and afterwards each particle is on the rank that owns its position (or the rank that was named), for any distribution of particles, rank count and displacement.",
     ["inputs", "schedules", "configurations"], "all distributions including empty ranks, all rank counts, displacements across the domain",
     "Tests run with a single rank or few fixed ones and uniform distributions.",
     [I + "global_move.hpp", I + "global_move_exchange.hpp", I + "local_move.hpp", "src/global_mapping.cpp", "src/departing_particle_identification.cpp", "src/particle_group.cpp"],
     [("GlobalMove::move, LocalMove::move, MeshHierarchyGlobalMap::execute", I + "global_move.hpp")])
prop("C11", "Sub-groups follow their predicate; static ones are frozen",
     "A sub-group contains exactly the particles of its parent for which its predicate holds at the time it is used, after any change to the particles; a static sub-group keeps the members it was created with. Loops and particle reads over a sub-group see exactly its members.",
     ["inputs", "histories"], "all predicates, parents and histories of operations between uses",
     "Tests check a few predicates shortly after creation; missed invalidation needs a particular sequence of operations.",
     [I + "particle_sub_group/particle_sub_group_base.hpp", "src/particle_sub_group/particle_sub_group_base.cpp", "src/particle_sub_group/sub_group_selector.cpp", "src/particle_sub_group/sub_group_selector_base.cpp"],
     [("ParticleSubGroupImplementation::create_if_required, version tracking", "src/particle_sub_group/particle_sub_group_base.cpp")])
prop("C12", "Sub-group combinators select exactly what they describe",
     "Cell-range, truncation, discard, copy, disjoint union and partition sub-groups contain exactly the particles their definition gives for the current members of their parent, in the parent's order where an order is defined; the partitions are disjoint and cover the particles in range.",
     ["inputs", "histories"], "all parents, ranges, lengths and histories",
     "Tests use one parent and a few parameters.",
     ["src/particle_sub_group/truncate_sub_group_selector.cpp", "src/particle_sub_group/discard_sub_group_selector.cpp", "src/particle_sub_group/cell_sub_group_selector.cpp", "src/particle_sub_group/copy_selector.cpp", "src/particle_sub_group/disjoint_union_sub_group_selector.cpp", "src/particle_sub_group/particle_group_partition.cpp"],
     [("selectors' create methods", "src/particle_sub_group/")])
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")) else None

TECH = "contract-based deductive verification: obligations generated from clang bitcode of the real code, discharged by z3/cvc5"
TECHB = "contracts on the real functions; no function within the verifier's reach, decided by a bounded stand-in"


def main():
    have = [p for p in P if os.path.exists(os.path.join(ROOT, "contracts", p["id"] + ".cpp"))]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in have:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in have:
        src = open(os.path.join(ROOT, "contracts", p["id"] + ".cpp")).read()
        nv = len(re.findall(r"NPV_PROVE\(", src)) + len(re.findall(r"^//@ proves:", src, re.M))
        nb = len(re.findall(r"NPV_BOUNDED\(", src))
        lvl = "proof" if nv else "exploration"
        note = ("%d contracts proved for all inputs by obligations regenerated from /repo on every run (floating point as reals, SYCL runtime and listed callees by assumed contract)" % nv if nv else "no unbounded proof")
        if nb:
            note += "; %d bounded stand-ins (sampled inputs and histories, four command schedules%s) executed on the real code, labelled bounded and not counted as proved" % (nb, ", several MPI rank counts" if re.search(r"NPV_BOUNDED\(\w+, \d+, [2-9]\)", src) else "")
        checks.append(dict(property=p["id"], quick_cmd="python3-vt engine/check.py %s" % p["id"], thorough_cmd="python3-vt engine/check.py %s --tier thorough" % p["id"],
                           technique=TECH + (", with bounded stand-ins" if nb else "") if nv else TECHB, level=lvl, level_note=note))
    m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[], notes="All checks regenerate their obligations and executables from /repo's working tree (content-addressed cache in build/). No hooks in /repo: contracts and the SYCL shim live in /verif.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
