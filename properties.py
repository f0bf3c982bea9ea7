#!/usr/bin/env python3
"""Source of properties.jsonl (python3 properties.py rewrites it)."""
import json, os
P = []
#: reasons of properties which are not claimed
NA = {}
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "Local time stepping: every face update uses the neighbour's matching interval",
 "Whenever a seismic simulation updates an element over its time step [t, t+dt], the contribution through each face is the face-neighbour's time-integrated prediction over exactly [t, t+dt], started from the neighbour's own up-to-date state, no matter whether the neighbour belongs to the same, a faster or a slower time group and whether it lives in the same or in another partition. A free-surface face uses the element's own prediction over [t, t+dt] and an outflow face uses none. This holds for every number of worker threads, every interleaving and every message delay.",
 ["schedules", "inputs", "configurations", "histories"],
 "all admissible meshes and time-group assignments (neighbouring groups differ by at most one), partitionings, thread counts, thread interleavings, message timings and sequences of synchronisation times",
 "The time manager, the time groups and the seismic step functions are not even compiled by the unit tests; correctness depends on the joint behaviour of the scheduler, the per-element buffers and the messages under every interleaving.",
 ["src/time/Manager.cpp", "src/impl/seismic/inc/time/man_sched.inc", "src/time/TimeGroupStatic.cpp", "src/impl/seismic/steps.inc", "src/impl/seismic/solvers/AderDg.hpp", "src/parallel/MpiRemix.cpp", "src/mesh/EdgeV.cpp"],
 [("dependency counters of the time groups", "src/time/Manager.cpp getTimePredAvailable/getTimePredConsumed"),
  ("three time-integrated buffers per element", "src/impl/seismic/solvers/AderDg.hpp local()/neigh()"),
  ("scheduling rules", "src/impl/seismic/inc/time/man_sched.inc")],
 [("time predictions / dof updates since sync", "per-group progress", "src/time/TimeGroupStatic.h"), ("time-integrated dofs", "per-element buffers: full step, two-step sum, half step", "src/impl/seismic/solvers/AderDg.hpp")],
 ["every neighbour-flux evaluation (element, face, data used)"])

prop("C02", "Simulation to a synchronisation point terminates at exactly that time",
 "Every request to advance the simulation by a positive duration terminates on all ranks for every thread count, interleaving and message delay, and afterwards every element of every time group has been updated over consecutive, gap-free, non-overlapping steps that together cover exactly the requested duration. Group k takes full steps of 2^k fundamental time steps except where the final macro step is shortened to hit the requested time, and all groups finish the same number of macro steps.",
 ["schedules", "inputs", "configurations", "histories"],
 "all durations, fundamental time steps, group counts, thread counts, interleavings and sequences of synchronisation points",
 "Deadlocks and skipped or doubled steps depend on the interplay of threads, groups and ranks; the manager is not compiled in the unit tests.",
 ["src/time/Manager.cpp", "src/time/TimeGroupStatic.cpp", "src/impl/seismic/inc/time/man_sched.inc", "src/impl/advection/inc/time/man_sched.inc", "src/impl/swe/inc/time/man_sched.inc"],
 [("adjusted time steps towards the synchronisation point", "src/time/TimeGroupStatic.cpp setUp/updateTsInfo"), ("control flow of the scheduler", "src/time/Manager.cpp simulate/schedule/compute/communicate")],
 [("covered simulation time", "time covered by the group", "src/time/TimeGroupStatic.h")],
 ["TimeGroupStatic::getCovSimTime/nTimePredSync/nDofUpSync after simulate", "every element update"])

prop("C03", "Shared-memory work distribution processes every entity exactly once",
 "Each scheduled portion of work (a region of entities of one time group) is executed so that every entity of the region is processed exactly once per scheduling, by exactly one worker, before the portion is reported as finished; never while it is not scheduled and never twice. This holds for every number of worker threads, every interleaving, every region size (including empty regions and fewer entities than threads) and after any history of load re-balancing.",
 ["schedules", "configurations", "histories"],
 "all region layouts, thread counts, interleavings and measured-time histories that drive the re-balancing",
 "The sharing and balancing classes are excluded from the offline tests, and a test samples a handful of fixed region sizes on one schedule.",
 ["src/parallel/Shared.cpp", "src/parallel/LoadBalancing.cpp", "src/time/Manager.cpp"],
 [("per-thread status of work regions", "src/parallel/Shared.cpp"), ("weighted splitting of entities to threads", "src/parallel/LoadBalancing.cpp balance/regWrkTd")],
 [("work region", "first, size, status per thread", "src/parallel/Shared.h")],
 ["Shared::getWrkTd/getStatusAll", "mock kernels"])

prop("C04", "Inter-partition messages: right data, right order, no buffer reuse hazards",
 "Every message exchanged between partitions carries, for every face of the channel, exactly the data which the sending time group computed for the step(s) that the receiving group consumes, and is received into the buffer the consuming faces read. A send buffer is never overwritten before its previous message was transferred and a receive buffer is never read before its message arrived nor overwritten before it was consumed, for every message delay and every interleaving. Channels between groups with different time steps exchange once per coarser step.",
 ["schedules", "fault_sequences", "configurations"],
 "all partitionings with one or more channels between time groups, message delays and reorderings across channels",
 "No test uses more than one process and the message-passing class is not compiled offline.",
 ["src/parallel/MpiRemix.cpp", "src/parallel/Distributed.cpp", "src/impl/seismic/inc/time/man_sched.inc", "src/impl/seismic/steps.inc", "src/impl/seismic/solvers/AderDg.hpp"],
 [("channel progress", "src/parallel/MpiRemix.cpp beginSends/finSends/beginRecvs/finRecvs"), ("step-dependent channels", "src/parallel/Distributed.cpp")],
 [("send/receive counters", "messages since synchronisation", "src/parallel/Distributed.h")],
 ["MPI calls", "neighbour-flux evaluations at partition boundaries"])

prop("C05", "Time groups: CFL respected, single jumps, no element slower than needed",
 "The mesh preprocessor assigns every element the largest time group such that the group's time step does not exceed the element's CFL time step and face-adjacent elements differ by at most one group. Group time-step intervals start at the requested relative fundamental time step and grow by the given rates; the per-group element counts match the assignment for every queried element range. The reported speed-up equals the number of elements divided by the sum over elements of the inverse (relative) group time steps.",
 ["inputs", "configurations"],
 "all element adjacencies, CFL time steps, rates in (1,2] and relative fundamental time steps in (0,1]",
 "The normalisation is a fix-point iteration over arbitrary graphs, tests cover two small fixed examples.",
 ["tools/edge_v/src/time/Groups.cpp", "tools/edge_v/src/time/Cfl.cpp"],
 [("grouping and normalisation", "tools/edge_v/src/time/Groups.cpp Groups/normalizeElTgs"), ("CFL time steps", "tools/edge_v/src/time/Cfl.cpp setTimeSteps")],
 [("element time groups", "assignment", "tools/edge_v/src/time/Groups.h")],
 ["Groups::getElTg", "Groups::nGroupEls", "Groups::getTsIntervals", "Groups::getSpeedUp", "Cfl::getTimeSteps"])

prop("C06", "Communication structure: complete, symmetric and consistently ordered",
 "For every mesh in which two elements share at most one face, every partitioning into non-empty partitions and every time-group assignment, the preprocessor's communication structure contains exactly one entry per element face that touches another partition: channels are grouped by (local group, remote partition, remote group), each face appears once on each side, and the i-th face of a channel on one partition is the same physical face as the i-th face of the matching channel on the other. Channel sizes are equal on both sides, and the inner/send element counts and first elements per time group partition each partition's elements exactly.",
 ["inputs", "configurations"],
 "all meshes, partitionings and time-group assignments",
 "Tests cover hand-written examples only; symmetry must hold for every pair of partitions of every mesh.",
 ["tools/edge_v/src/mesh/Communication.cpp"],
 [("message derivation", "tools/edge_v/src/mesh/Communication.cpp"), ("face ids at partition boundaries", "tools/edge_v/src/io/Hdf5.cpp / main.cpp")],
 [("communication structure", "channels per partition", "tools/edge_v/src/mesh/Communication.h")],
 ["Communication::getStruct", "Communication::nSeRe", "Communication::getSendFa/getSendEl/getRecvFa/getRecvEl", "Communication::nGroupElsIn/nGroupElsSe"])

prop("C07", "Partitioning and element ordering are consistent",
 "For every mesh, weights and number of partitions, the partitioner assigns every element to exactly one partition, the reported partition sizes are the true ones, and ordering the elements by the returned priorities makes every partition contiguous and, inside a partition, puts the inner elements (which have no face-neighbour in another partition) ahead of the send elements, each of the two blocks ordered by ascending time group. The reordering is a pure permutation: it changes no element's vertices, no coordinates and no boundary condition.",
 ["inputs", "configurations"],
 "all meshes, time-group assignments and partition counts",
 "Tests use two fixed meshes; the solver's data layout silently relies on this order for any mesh.",
 ["tools/edge_v/src/mesh/Partition.cpp", "tools/edge_v/src/io/Gmsh.cpp"],
 [("priorities", "tools/edge_v/src/mesh/Partition.cpp getElPr"), ("reordering", "tools/edge_v/src/io/Gmsh.cpp reorder")],
 [("element partitions", "", "tools/edge_v/src/mesh/Partition.h")],
 ["Partition::getElPa", "Partition::nPaEls", "Partition::getElPr", "Gmsh::reorder"])

prop("C08", "Mesh connectivity is complete and mutually consistent",
 "For every conforming mesh of triangles, quads, tets or hexes the preprocessor's adjacency information is complete and consistent: every face of every element is listed once with exactly its vertices, two elements are face-neighbours exactly when they share all vertices of a face, element-to-face, face-to-element and element-to-element relations agree in both directions, and boundary faces have no second element. The local face id and the vertex id reported for the neighbour's side of a face identify the same physical face and its first vertex, and user-defined face tags are attached to exactly the faces tagged in the input.",
 ["inputs", "configurations"],
 "all conforming triangle, quad, tet and hex meshes in any element/vertex numbering",
 "Tests sample a few counts of two fixed meshes.",
 ["tools/edge_v/src/mesh/Mesh.cpp", "tools/edge_v/src/io/Gmsh.cpp", "tools/edge_v/src/geom/Geom.cpp", "tools/edge_v/src/geom/Generic.cpp"],
 [("face matching by sorted vertices", "tools/edge_v/src/mesh/Mesh.cpp Mesh()"), ("normalised ordering", "tools/edge_v/src/mesh/Mesh.cpp normOrder, tools/edge_v/src/geom")],
 [], ["Mesh::getElVe/getFaVe/getFaEl/getElFa/getElFaEl/getSpTypeFa/getFaIdsAd/getVeIdsAd"])

prop("C09", "Periodic boundaries connect exactly the opposite faces",
 "For every box-shaped mesh with matching opposite boundaries tagged as periodic, each periodic face is connected to exactly the face that is its translate along the constant direction, and the relation is symmetric; all other faces keep their adjacency. Both copies of a periodic face then list the same two elements, ordered so that the normal of each copy points out of the element that owns this copy.",
 ["inputs", "configurations"],
 "all box meshes with matching boundaries, sizes and numberings",
 "Pairing is a search over all boundary faces; tests only cover one triangle mesh.",
 ["tools/edge_v/src/mesh/Mesh.cpp"],
 [("periodic pairing", "tools/edge_v/src/mesh/Mesh.cpp setPeriodicBnds")],
 [], ["Mesh::getFaEl", "Mesh::getElFaEl", "Mesh::getNormalsFa"])

prop("C10", "Geometric quantities of the mesh are consistent with the vertex coordinates",
 "For every non-degenerate mesh of triangles, tets, axis-aligned quads or axis-aligned hexes: element volumes and face areas are positive and equal the exact ones, centroids are the mean of the vertices, in-diameters are the exact length/incircle/insphere diameters, and unit face normals point from the first to the second adjacent element (out of the domain at boundaries) with the tangents completing an orthonormal system. Consequently, the area-weighted outward normals of each element sum to zero.",
 ["inputs"], "all non-degenerate elements and meshes, any vertex numbering",
 "Tests sample a few single elements; orientation depends on the numbering.",
 ["tools/edge_v/src/geom", "tools/edge_v/src/mesh/Mesh.cpp"],
 [("geometry kernels", "tools/edge_v/src/geom/*.cpp")], [],
 ["Mesh::getVolumesEl/getAreasFa/getCentroidsEl/getNormalsFa/getTangentsFa/getInDiasEl"])

prop("C11", "Preprocessed annotations survive the HDF5 round trip per partition",
 "Whatever integer, double or connectivity array the preprocessor stores under a name in a mesh file's groups is read back unchanged (same length, same values, same order), for several arrays and groups in one file and also for values at the limits of their type. Writing other arrays, mixing groups or re-opening the file never changes another array.",
 ["inputs", "histories"], "all arrays, names, groups and sequences of set/get operations",
 "Tests write one small array per type.",
 ["tools/edge_v/src/io/Hdf5.cpp"],
 [("set/get", "tools/edge_v/src/io/Hdf5.cpp")], [], ["Hdf5::set/get/nVas/createGroup"])

prop("C12", "Sparse entities: numbering and links match the dense mesh",
 "For every mesh adjacency and every assignment of sparse types, sparse ids enumerate exactly the entities carrying the type in dense order, and every derived link (sparse to dense, sparse to sparse of another type, sparse adjacency between entities, propagated and inherited types) relates exactly those entities that the dense adjacency relates, with the invalid marker everywhere else. Layouts derived for a sparse type list, per time region, exactly the sparse entities of that region.",
 ["inputs", "configurations"], "all adjacencies, type bit patterns and time regions",
 "Tests use tiny fixed adjacencies and are excluded from the offline build.",
 ["src/data/SparseEntities.hpp"],
 [("sparse id bookkeeping", "src/data/SparseEntities.hpp")], [], ["return values and output arrays of the linking functions"])

prop("C13", "Elements are flagged with exactly the time relations of their faces",
 "When the solver reads a partition's mesh, each element is flagged per face with exactly one relation to its neighbour's time group (equal, less or greater), for in-partition neighbours from the adjacency and for out-of-partition neighbours from the communication structure; boundary faces carry the equal relation. The element-wide flags are exactly the union over faces, and entity layouts list inner and send elements per time group contiguously and completely.",
 ["inputs", "configurations"], "all adjacencies, groupings and communication structures",
 "The reader of the solver is not compiled offline; tests do not cover the flags.",
 ["src/mesh/EdgeV.cpp", "src/data/EntityLayout.cpp"],
 [("type derivation", "src/mesh/EdgeV.cpp setLtsTypes"), ("layout", "src/mesh/EdgeV.cpp setElLayout")], [],
 ["sparse types of elements", "t_enLayout"])

prop("C14", "Dynamic memory layouts hand out disjoint, sufficiently large, aligned storage",
 "For every sequence of storage requests (dense, flexible-size per entity, message buffers, adjacency-ordered pointers) the memory handed to different entities never overlaps, is at least as large as requested, honours the requested alignment, and stays valid until released. Pointers computed for adjacency access refer to exactly the storage of the adjacent entity or to the communication buffer position of that face.",
 ["inputs", "histories"], "all entity layouts, flag patterns, sizes, alignments and request sequences",
 "Tests sample single layouts.",
 ["src/data/Dynamic.cpp", "src/data/Dynamic.h", "src/data/DataLayout.hpp", "src/data/EntityLayout.cpp"],
 [("flexible allocation", "src/data/Dynamic.h flex"), ("layout conversion", "src/data/EntityLayout.cpp")], [],
 ["returned pointers"])

prop("C16", "Receivers sample every scheduled time exactly once, in order, without loss",
 "Each receiver outputs one sample for every multiple of the sampling interval in the half-open simulated interval [0, T), exactly once and in increasing order, for every sequence of (differently sized) time steps, and each value is the prediction of the receiver's own element evaluated at that time. Buffering and flushing neither lose, duplicate nor reorder samples, for any number of receivers and any flush pattern.",
 ["inputs", "histories", "schedules"], "all step sequences, sampling intervals, receiver counts and flush moments",
 "Tests are excluded offline and cover one fixed step sequence.",
 ["src/io/Receivers.cpp", "src/io/Receivers.h", "src/io/ReceiversSf.hpp", "src/impl/seismic/solvers/AderDg.hpp"],
 [("sampling time bookkeeping", "src/io/Receivers.cpp getRecvTimeRel/writeRecvAll"), ("buffer flush", "src/io/Receivers.cpp flush/flushIf")],
 [("buffers", "pending samples", "src/io/Receivers.h")], ["CSV files"])

prop("C17", "Friction law: tractions bounded by strength, slip monotone, weakening exact",
 "For every state of a linear-slip-weakening fault point and every time step, the resulting shear traction never exceeds the frictional strength of the current slip, sticking points keep zero slip rate while sliding points carry exactly the strength in the direction of the trial traction, and slip never decreases. The friction coefficient always equals the linear weakening function of slip clamped between static and dynamic value, and both sides of the fault see the same traction.",
 ["inputs", "histories"], "all initial stresses, friction parameters, trial states and step sequences, two and three dimensions",
 "Tests check single hand-computed perturbations.",
 ["src/impl/seismic/solvers/FrictionLaws.hpp"],
 [("perturb", "src/impl/seismic/solvers/FrictionLaws.hpp")], [("slip, slip rate, friction coefficient", "fault state", "src/impl/seismic/solvers/FrictionLaws.type")],
 ["FrictionLaws::perturb outputs"])

prop("C18", "Shallow water: mass conserved, lake at rest preserved, dry cells stay dry",
 "For every bathymetry and water state, the finite-volume update conserves the total water mass in a closed domain (what leaves one cell enters its neighbour, reflecting walls pass nothing), keeps a lake at rest exactly at rest including at coastlines, and never puts water or momentum into dry cells or changes the bathymetry. Fused simulations are each treated independently.",
 ["inputs", "histories"], "all bathymetries, water states, boundary types and step sequences",
 "Tests check single Riemann problems with fixed numbers.",
 ["src/impl/swe/solvers/Fwave.hpp", "src/impl/swe/solvers/FiniteVolume.hpp"],
 [("f-wave solver", "src/impl/swe/solvers/Fwave.hpp"), ("finite volume update", "src/impl/swe/solvers/FiniteVolume.hpp")], [],
 ["net updates", "cell values after update"])

prop("C19", "Troubled-cell detection admits exactly candidates inside the neighbourhood range",
 "The discrete maximum principle accepts a candidate of a fused run exactly when, for every quantity, all candidate extrema lie within the extrema of the element and its considered neighbours, relaxed by the documented tolerance; the verdict of one fused run never depends on another run, and boundary faces without neighbour do not contribute. A candidate within range is never flagged and one outside never accepted.",
 ["inputs"], "all extrema patterns, neighbour configurations, fused runs",
 "Tests sample single patterns.",
 ["src/sc/Detections.hpp", "src/sc/Kernels.hpp"],
 [("dmp", "src/sc/Detections.hpp")], [], ["return flags"])

prop("C20", "Fused simulations do not influence each other",
 "Running several simulations fused gives each of them the results it would have if the other fused simulations had arbitrary different data: time prediction, volume and surface integration, flux solvers, limiter projections and receivers of one fused run are functions of that run's data only. The result of a run does not depend on its lane position.",
 ["inputs", "configurations"], "all data of the other fused runs, all kernels and lane positions",
 "Tests compare fused kernels against reference values for one data set.",
 ["src/impl/seismic/kernels", "src/data/MmVanilla.hpp", "src/sc/Kernels.hpp", "src/impl/swe/solvers"],
 [("lane-innermost loops", "kernels")], [], ["kernel outputs per lane"])

prop("C21", "Extruded surface meshes are watertight and consistently oriented",
 "For every admissible regular grid of surface points the extrusion writes bottom, top and side surfaces which together form a closed, watertight 2-manifold: every undirected edge is shared by exactly two triangles, traversed once in each direction, and every header's vertex and facet counts match the contents. The top surface reproduces the input points exactly and the bottom lies at the requested depth.",
 ["inputs"], "all grid sizes, refinement levels, depths and surface heights",
 "Tests compare one fixed small grid.",
 ["tools/edge_cut/src/mesh/Extrude.cpp"],
 [("extrusion", "tools/edge_cut/src/mesh/Extrude.cpp")], [], ["OFF streams"])

prop("C22", "Sub-cell grids tile the element and have symmetric adjacency",
 "For every element type and order, the generated sub-cell grid tiles the reference element exactly: sub-cells have equal counts and positive volume summing to the element volume, sub-faces are shared by exactly the sub-cells that list each other as neighbours, and the sub-faces at each element face are ordered consistently with the ones of the adjacent element for every vertex permutation. Received sub-cells are numbered after the owned ones and adjacent to exactly one of them.",
 ["inputs", "configurations"], "all element types and orders",
 "Tests check low orders of some types against fixed tables.",
 ["tools/edge_pre/edge_pre/sc/grid"],
 [("grid generators", "tools/edge_pre/edge_pre/sc/grid/*.py")], [], ["module functions"])

prop("C25", "Point sources inject their full moment exactly once",
 "For every step sequence covering a time window, the sum of all contributions a kinematic source adds equals the integral of its piecewise-linear slip-rate over the window, independent of how the window is split into time steps; before its onset and after its end nothing is added, only to the elements containing sources.",
 ["inputs", "histories"], "all source time series, onsets, and step sequences",
 "Tests are excluded offline and check fixed steps.",
 ["src/impl/seismic/setups/PointSources.hpp"],
 [("integration", "src/impl/seismic/setups/PointSources.hpp")], [], ["element dofs"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
