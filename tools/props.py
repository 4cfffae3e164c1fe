#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run me to regenerate it)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

T = "include/tree_topology/"
PH = "include/physics/"
p("C01", "Space-filling-curve keys order, nest and locate the cells of the domain",
  "At every depth the curve maps the cells of the regular 2^depth grid over the range one-to-one onto the key values of that depth, and the key of a point at a smaller depth is the ancestor of its key at a larger depth, consistently with push, pop, truncate and the reported depth. "
  "Decoding a full-depth key (for the Morton curve a key of any depth) gives a point of the cell the key stands for, to within the resolution of the curve. "
  "Consecutive Hilbert keys are face neighbours, and every dimension (1, 2, 3) and key width behaves alike.",
  ["inputs", "configurations"],
  "for every grid cell at every depth, every dimension 1-3, both curves, random points at full depth, and every push/pop/truncate history",
  "filling_curves tests print and compare a handful of fixed keys and check decode error of a few hundred random points at full depth only",
  [T + "filling_curve.h"],
  [("morton_curve_u / hilbert_curve_u constructors", T + "filling_curve.h"), ("filling_curve_u push/pop/truncate/depth/coordinates", T + "filling_curve.h")])
p("C02", "Domain decomposition is a lossless, globally sorted redistribution",
  "When an iteration starts, the particles of all ranks together are exactly the particles there were before, every particle keeps all its attributes, and the numbers of particles on any two ranks differ by at most one. "
  "Reading the ranks in order gives a sequence sorted by (key, id), where the key is that of the particle's current position in one global range, identical on all ranks, that contains every particle with its smoothing length.",
  ["inputs", "configurations", "schedules"],
  "for every particle set with equal or distinct keys, every distribution over the ranks (even ones that leave a rank without particles), and every message schedule",
  "no test runs more than one rank or calls the distributed sort or the iteration set-up",
  ["mpisph/psort.h", "mpisph/bodies_system.h", T + "tree_topology.h"],
  [("psort::psort / Split::split", "mpisph/psort.h"), ("body_system::update_iteration, mpi_compute_range", "mpisph/bodies_system.h"), ("tree_topology::compute_keys", T + "tree_topology.h")])
p("C03", "Every rank holds a well-formed tree over all of the top-level domain",
  "After an iteration starts, the cells on each rank form a tree with no orphan and no dangling child mark: each of the rank's own particles is in exactly one leaf, whose key is an ancestor-or-self of the particle's key, and a node exists only where at least two particles lie below it. "
  "Every particle of every other rank lies below exactly one cell known to the rank: a leaf holding that very particle, or a remote node or leaf labelled with the rank from which its contents can be fetched. "
  "Every cell's recorded owner can serve that cell.",
  ["inputs", "configurations", "schedules"],
  "for all particle sets with distinct keys, all splits over 1..8 ranks (powers of two or not), all dimensions, all message schedules",
  "no test builds a tree",
  [T + "tree_topology.h", T + "tree_types.h", T + "hashtable.h"],
  [("build_tree, load_shared_*, find_parent, add_parent_", T + "tree_topology.h"), ("share_edge_, share_nodes_", T + "tree_topology.h"), ("hcell_base_u child bits, owner", T + "tree_types.h")])
p("C04", "Cell summaries describe exactly the particles below the cell",
  "For every node of every rank's tree, local, shared between ranks or remote, the recorded particle count, total mass and centre of mass are those of the particles of the whole system below that node. "
  "Its recorded extent contains every one of those particles together with half its smoothing length, and its recorded radius bounds their distance from the centre of mass.",
  ["inputs", "configurations", "schedules"],
  "for all particle sets (masses, smoothing lengths), rank counts, message schedules, and after every refresh of remote data",
  "no test computes a centre of mass or builds a tree",
  [T + "tree_topology.h", PH + "default_physics.h", PH + "node.h"],
  [("compute_cofm", PH + "default_physics.h"), ("cofm, share_nodes_, share_edge_", T + "tree_topology.h"), ("node_u", PH + "node.h")])
p("C05", "Neighbour search finds every interacting particle, local or remote",
  "In a smoothing-length loop each particle is handed every particle of the whole system, itself included, whose distance from it is at most the mean of the two smoothing lengths, each exactly once, wherever it is stored. "
  "It is handed no particle farther away. "
  "The set does not depend on the number of ranks, the distribution of the particles or the order in which messages arrive.",
  ["inputs", "configurations", "schedules"],
  "for every particle set with distinct keys, smoothing lengths, rank counts 1..8, dimensions 1-3 and message schedules",
  "no test performs a neighbour search; an error shows only for particular configurations across rank boundaries",
  [T + "tree_topology.h", T + "tree_geometry.h", PH + "node.h"],
  [("traversal_sph, find_neighbors / interactions", T + "tree_topology.h"), ("geometry intersection tests", T + "tree_geometry.h")])
p("C06", "Particle loops process each owned particle exactly once, on its owner",
  "One pass of a smoothing-length loop, of a loop over all particles, or of the gravity traversal invokes the operation exactly once for every particle of the system, on the rank that owns it, and never for a copy of a remote particle; the gravity traversal applies its operations only to particles the rank owns. "
  "This holds for every pass, also after remote data have been refreshed, and the number of owned particles reported is the number processed.",
  ["inputs", "configurations", "schedules"],
  "for every particle set, rank count, message schedule and sequence of passes and refreshes",
  "no test runs such a loop",
  [T + "tree_topology.h", "mpisph/bodies_system.h"],
  [("traversal_sph, find_sub_cells_, traversal_fmm", T + "tree_topology.h"), ("apply_all, apply_in_smoothinglength", "mpisph/bodies_system.h")])
p("C07", "Remote-data exchange terminates, answers every request and leaves nothing behind",
  "In a distributed traversal every rank finishes whatever the order and delay of messages and whether or not sends are buffered: there is no deadlock. "
  "Every requested cell is answered exactly once, to the rank that asked, by a rank that owns it; a rank stops serving only when all ranks have finished asking. "
  "When the traversal ends no message is pending, so the next one cannot receive a stale message.",
  ["schedules", "inputs", "configurations"],
  "for every interleaving of message delivery and rank progress, buffered or rendezvous sends, 1..8 ranks, any request pattern including request lists longer than one message",
  "the tests start no second rank, and a real MPI run samples only the schedules of one machine",
  [T + "tree_topology.h", T + "tree_utils.h"],
  [("traversal_sph request/reply loop, handle_requests", T + "tree_topology.h"), ("done signalling, clean_comms_", T + "tree_topology.h")])
p("C08", "Remote copies show the owner's values as of the latest refresh",
  "During any pass that follows the start of an iteration or a refresh of the remote data, the values seen for a remote particle are its own and at least as recent as those its owner held at that start or refresh, never older ones and never those of another particle. "
  "A refresh keeps every rank's own particles unchanged.",
  ["inputs", "schedules", "histories"],
  "for every sequence of passes, owner updates and refreshes, every rank count and message schedule",
  "needs at least two ranks and an update between two passes; no test does that",
  [T + "tree_topology.h", "mpisph/bodies_system.h"],
  [("reset_ghosts, ghosts_entities_/shared storage", T + "tree_topology.h"), ("body_system::reset_ghosts", "mpisph/bodies_system.h")])
p("C09", "Gravity traversal accounts for every pair exactly once within its criterion",
  "For every particle the gravity traversal accounts for each other particle of the system exactly once: either directly, or through one accepted cell interaction of a cell containing it with a cell containing the other. "
  "A cell interaction is accepted only if the two radii together are smaller than the opening parameter times the distance of the centres of mass. "
  "The expansion of a cell is passed on to exactly the particles below it, once.",
  ["inputs", "configurations", "schedules"],
  "for every particle set, opening parameter (including 0: all direct), rank count and message schedule",
  "no test performs a gravity traversal",
  [T + "tree_topology.h", PH + "fmm.h", T + "tree_geometry.h"],
  [("traversal_fmm, traverse_fmm", T + "tree_topology.h"), ("box MAC", T + "tree_geometry.h"), ("taylor_c2c, fmm_p2p, fmm_c2p", PH + "fmm.h")])
p("C10", "Gravity equals the direct sum when every pair is treated directly",
  "With an opening parameter that rejects every cell interaction, the gravitational acceleration of each particle is the Newtonian direct sum over all other particles and its potential the corresponding sum, for any number of ranks. "
  "With an accepting parameter, the acceleration and potential differ from it by no more than the multipole truncation error.",
  ["inputs", "configurations"],
  "for every particle set, rank count and opening parameter",
  "no test computes gravity",
  [PH + "fmm.h", T + "tree_topology.h"],
  [("fmm_p2p, taylor_c2c, taylor_p2c, fmm_c2p", PH + "fmm.h")])
p("C11", "Time stepping hits every requested output time and respects the stability limit",
  "Simulated time increases with every step. With adaptive stepping a step is no larger than the smallest per-particle limit over all ranks and grows at most by two each time the limits are evaluated, every requested output time of a channel is taken exactly, in order, skipping none, and a step shortened for an output does not shorten or lengthen those that follow. "
  "All ranks take the same steps.",
  ["histories", "inputs", "configurations"],
  "for every sequence of per-particle limits, initial time and step, and output intervals of the three channels, equal, multiple or incommensurable",
  "no test advances time",
  [PH + "default_physics.h", PH + "analysis.h"],
  [("set_adaptive_timestep, compute_dt, advance_time", PH + "default_physics.h"), ("set_initial_time_iteration", PH + "analysis.h")])
p("C12", "Each output channel fires exactly when requested and the run stops on time",
  "A channel set to output by time fires at the start and at the first step at or after each of its output times, and at no other step; a channel set to output by iteration fires exactly at the multiples of its interval; a channel switched off never fires. "
  "Each firing adds one record stamped with the current iteration and time. "
  "The run executes every iteration up to the first limit reached, final iteration or final time, and none beyond it.",
  ["histories", "configurations"],
  "for every combination of intervals, by time or by iteration, of the screen, scalar and particle-data channels, initial iteration and final limits",
  "no test runs a simulation loop",
  [PH + "analysis.h", PH + "default_physics.h", "app/drivers/hydro/main_driver.cc"],
  [("screen_output, scalar_output, h5data_output", PH + "analysis.h"), ("termination_criteria, advance_time", PH + "default_physics.h"), ("main loop", "app/drivers/hydro/main_driver.cc")])
p("C13", "The simulation driver advances particles by the kick-drift-kick scheme",
  "After each iteration beyond the first, every particle has moved by one step times its half-step velocity, its velocity is the half-step velocity plus half a step times the acceleration evaluated at the new positions, and the half-step velocity is the old velocity plus half a step times the old acceleration; energy is advanced the same way when it is evolved. "
  "Forces are evaluated with densities, pressures and neighbour values of the current positions on every rank, so the trajectory does not depend on the number of ranks.",
  ["histories", "inputs", "configurations", "schedules"],
  "for every initial particle set, external force, time step, rank count and number of iterations",
  "no test runs the driver",
  [PH + "integration.h", "app/drivers/hydro/main_driver.cc", "mpisph/bodies_system.h"],
  [("leapfrog_kick_v/u/e, leapfrog_drift, save_velocityhalf", PH + "integration.h"), ("mpi_init_task", "app/drivers/hydro/main_driver.cc")])
p("C14", "A particle snapshot read back gives the particles that were written",
  "Reading a snapshot restores, for every particle and any number of writing and reading ranks, the position, velocity, mass, density, smoothing length, pressure, internal energy, id, time step, type and state that were written, with every particle on exactly one rank and particle counts balanced to within one. "
  "The snapshot carries the iteration, time and time step of the moment it was written. "
  "The file holds all particles of all ranks with all recorded quantities, and if it has no ids, distinct ids are assigned on reading.",
  ["inputs", "configurations"],
  "for every particle set, dimension, writing and reading rank count, single-file and one-file-per-step layouts",
  "no test reads or writes a snapshot",
  ["mpisph/io.h"],
  [("outputDataHDF5, inputDataHDF5, H5P_bodiesReadDataset, H5P_setNumParticles", "mpisph/io.h")])
p("C15", "Restart resumes from the requested iteration and never destroys needed output",
  "Starting at iteration 0 reads the first snapshot of the input and any other start the snapshot recorded for exactly that iteration; if there is none, or the single output file holds later snapshots, the run stops with an error and touches no file. "
  "Outputs written afterwards continue the numbering after the snapshot resumed from (which is not written again), or start at zero for a new prefix, and none is lost. "
  "No earlier snapshot is altered, stale later ones of that prefix are removed, and files of other prefixes or directories are never touched.",
  ["histories", "configurations"],
  "for every history of runs and restarts, single-file and one-file-per-step layouts, prefixes with and without directory, iteration numbers present or absent",
  "no test restarts a run",
  ["mpisph/io.h"],
  [("H5P_findIterationSnapshot, H5P_isPrefixSnapshot, H5P_removePrefix, output_step", "mpisph/io.h")])
p("C16", "Parameter files are read completely, faithfully and alike on every rank",
  "Every parameter assigned in the file has afterwards, on every rank, the value written there according to its type, and every parameter not mentioned keeps its default, whatever the order, spacing, comments and quoting of the lines. "
  "An unknown parameter or a malformed value is reported and stops the run instead of being ignored.",
  ["inputs", "configurations"],
  "for every parameter, every well-formed or malformed line and every rank count",
  "no test reads a parameter file",
  ["include/params.h"],
  [("mpi_read_params, read_params, set_param", "include/params.h")])
p("C17", "Periodic boundaries wrap particles and give them all their images",
  "At the start of an iteration with periodic directions every particle lies inside the box in those directions, at its position modulo the box size, with its identity and attributes unchanged. "
  "For every particle within the halo of a periodic face, edge or corner there is exactly one image across each such face, edge and corner, displaced by exactly the box size, and no image otherwise; images of the previous iteration are gone. "
  "Images have ids distinct from each other and from the particles.",
  ["inputs", "configurations", "histories"],
  "for every particle set, dimension, subset of periodic directions, box shape, halo size and rank count",
  "no test uses periodic boundaries",
  [PH + "boundary.h", "mpisph/bodies_system.h"],
  [("pboundary_generate, pboundary_clean", PH + "boundary.h"), ("update_iteration", "mpisph/bodies_system.h")])
p("C18", "Hydrodynamic pair forces conserve momentum and energy",
  "The forces that two particles exert on each other are equal and opposite, and directed along their separation, so summed over all particles with their masses the hydrodynamic accelerations vanish and exert no torque. "
  "The rate of change of internal plus kinetic energy summed over all particles vanishes. "
  "This holds for every set of positions, velocities, masses, smoothing lengths, densities and pressures, every kernel and dimension.",
  ["inputs", "configurations"],
  "for all states, kernels, viscosity settings and dimensions",
  "no test evaluates a force",
  [PH + "default_physics.h", PH + "viscosity.h", PH + "kernels.h"],
  [("compute_acceleration, compute_dudt, compute_dedt", PH + "default_physics.h"), ("artificial viscosity", PH + "viscosity.h")])
p("C19", "Reported totals are the sums over all particles of all ranks",
  "Each scalar record reports the total mass, momentum, angular momentum and kinetic, internal, potential and total energy of all real particles of the whole system at that iteration, whatever the number of ranks and previous records. "
  "Boundary images and wall particles do not contribute. "
  "Columns follow the header.",
  ["inputs", "configurations", "histories"],
  "for every particle set, mix of particle types, rank count, dimension and sequence of records",
  "no test writes a scalar record",
  [PH + "analysis.h", "mpisph/utils.h"],
  [("compute_total_*, scalar_output", PH + "analysis.h"), ("reduce_sum", "mpisph/utils.h")])
p("C20", "Collective helpers deliver every element and reduce over every rank",
  "The gather and exchange helpers deliver to each rank exactly the elements addressed to it, in order of sending rank and position, including empty contributions and those to itself, and report correct counts. "
  "The reductions give every rank the minimum, maximum or sum over all ranks for each supported type.",
  ["inputs", "schedules", "configurations"],
  "for every vector of counts including zeros, element type, rank count and message schedule",
  "no test runs more than one rank",
  ["mpisph/utils.h"],
  [("mpi_alltoallv, mpi_alltoallv_p2p, mpi_allgatherv, reduce_*", "mpisph/utils.h")])
p("C21", "Lattice generation yields exactly the announced particles inside the domain",
  "For every lattice and domain type the number of particles announced by counting is the number generated, generation fills consecutive slots from the given index and touches no other, and every generated position is inside the domain and distinct. "
  "Regular lattices fill the domain: each lattice site of the domain is generated.",
  ["inputs", "configurations"],
  "for every lattice type, domain type, dimension, box and separation",
  "no test generates a lattice",
  ["include/lattice.h"],
  [("generator_lattice_1d/2d/3d, generator_icosahedral_lattice, in_domain_*", "include/lattice.h")])
p("C22", "Tensor components are stored, aliased and combined consistently",
  "Reading a component of a generic tensor returns the last value written to that component and nothing else; for a symmetric tensor all index permutations name one component and every distinct component has its own slot. "
  "Component-wise operations and vector products act on the components so named, for every rank 1-4 and dimension.",
  ["inputs", "programs"],
  "for every rank, dimension, symmetry and sequence of component writes and operations",
  "the sanity test writes and prints a few fixed tensors",
  ["include/tensor.h", "include/space_vector.h"],
  [("tensor_u index maps", "include/tensor.h"), ("dot, cross, distance", "include/space_vector.h")])
p("C23", "The cell table is a faithful map from keys to cells",
  "After any sequence of insertions of new keys, updates, look-ups and clears, looking up a key yields the value last stored under it if it was inserted since the last clear and nothing otherwise, also for keys that collide, and the size is the number of insertions since the last clear.",
  ["histories", "inputs"],
  "for every sequence of operations and every set of colliding keys",
  "no test exercises the table",
  [T + "hashtable.h"],
  [("hashtable emplace/find/clear/size", T + "hashtable.h")])
p("C24", "Smoothing kernels have compact support, unit mass and matching gradients",
  "Every selectable kernel is zero beyond its support, integrates to one (the sinc kernels to the accuracy of their tabulated normalization) and scales with the smoothing length; all but the super-Gaussian, which has a negative lobe by construction, are non-negative and decrease with distance. "
  "Its gradient is the derivative of the kernel, odd in the separation and directed along it, zero at the origin and beyond the support.",
  ["inputs", "configurations"],
  "for every kernel, dimension, distance and smoothing length",
  "no test evaluates a kernel",
  [PH + "kernels.h"],
  [("kernel<K,D>, gradKernelD, select", PH + "kernels.h")])
p("C25", "External accelerations are minus the gradient of the external potential",
  "For every selectable external field the potential drops along any path inside a smooth region by the work the acceleration does on the way, and has its documented form: walls act only outside their box or sphere, inward, with the set power and steepness; gravity, orbit and density support follow their formulas. "
  "A comma-separated list of fields gives the sum of the potentials and accelerations of exactly the fields it names, replacing earlier selections. "
  "Drag opposes the velocity with the set linear and quadratic coefficients.",
  ["inputs", "configurations"],
  "for every field and list of fields, set of parameters, position and path, and dimension (orbit: three dimensions)",
  "no test evaluates an external field",
  [PH + "eforce.h", PH + "density_profiles.h"],
  [("potential_*/acceleration_*, select, potential, acceleration, acceleration_drag", PH + "eforce.h"), ("spherical_density_profile, spherical_drho_dr", PH + "density_profiles.h")])
p("C26", "Equations of state are thermodynamically consistent",
  "For every equation of state, along an adiabat the internal energy changes by the work of compression, the sound speed squared is the derivative of the pressure by density, and both are continuous and finite, also across the threshold of the piecewise polytrope. "
  "Setting up a particle from density and pressure gives an adiabat that returns that pressure, for the ideal fluid also through the internal energy. "
  "Pressure, sound speed and energy have the documented values, and evaluating them changes nothing else.",
  ["inputs", "configurations"],
  "for every equation of state, adiabatic index and threshold, density, pressure and electron fraction",
  "no test evaluates an equation of state",
  [PH + "eos/eos.h"],
  [("eos_t<...>::init, compute_pressure, compute_soundspeed, compute_internal_energy, select", PH + "eos/eos.h")])

p("C27", "Density profiles, their mass and their slope describe one sphere",
  "For every selectable radial profile and dimension the mass within a radius is the integral of the density over the ball, starting from zero at the centre, and the slope is the derivative of the density; density is finite, not negative and does not grow outwards. "
  "The built-in profiles have unit mass within unit radius, also for every rim width of the flat-topped one. "
  "A profile read from a file passes through its tabulated values, whatever comments and blank lines the table has, and is zero beyond its last radius.",
  ["inputs", "configurations"],
  "for every profile, rim width, table and radius",
  "no test evaluates a density profile",
  [PH + "density_profiles.h"],
  [("rho_*, mass_*, drhodr_*, mesa_mass_helper, read_input_density_file, cubic_interp, select", PH + "density_profiles.h")])

p("C28", "Generated initial data are the set-up they announce",
  "For every parameter file a generator (shock tubes, blast, Noh, Kelvin-Helmholtz, Rayleigh-Taylor, implosion, collapse, fluid, wind tunnel) succeeds on, the file holds one initial step with every particle of the lattice once, inside the domain, with distinct ids and positions, and nothing of an earlier file. "
  "Each particle has the density, pressure and velocity of its region, a pressure on the equation of state, the smoothing length of its mass and density; the masses make up the density times the volume (or the density of the lattice), and fluids at rest carry the weight above. "
  "The blast adds exactly its energy, inside its radius, also to existing data.",
  ["inputs", "configurations"],
  "for every parameter file, lattice, kernel, domain and resolution",
  "no test runs a generator",
  ["app/id_generators/", "include/lattice.h"],
  [("main, set_derived_params of every generator", "app/id_generators/")])

p("C29", "Relaxation moves particles by the documented rule and ends when settled",
  "In every iteration of the relaxation driver each particle moves by the step fraction (shrinking during cool-down) of its pseudo-acceleration, which is the sum of the selected method's pair terms over neighbours and, at a reflecting boundary, over their images and its own; moves that overshoot are shortened and folded back, so no particle leaves the sphere, and no mass, velocity, energy, type or identity changes. "
  "Smoothing lengths follow the profile, rescaled to the wanted number of neighbours over all ranks when variable, and densities are kernel sums. "
  "All ranks stop together, when the share of particles still moving is below the convergence point or after the last cool-down iteration, and the last snapshot carries density and smoothing length of the profile, on any number of ranks.",
  ["inputs", "configurations", "schedules"],
  "for every particle set, method, boundary, profile, number of ranks and history of iterations",
  "no test runs the relaxation driver",
  ["app/drivers/wvt/main_driver.cc", "include/physics/wvt.h"],
  [("wvt_acceleration_diehl, wvt_acceleration_arth, wvt_displacement, compute_smoothinglength_wvt, check_convergence_wvt, wvt_set_density", PH + "wvt.h"), ("mpi_init_task", "app/drivers/wvt/main_driver.cc")])

p("C30", "Spatial predicates are exact and radius searches find exactly what is in reach",
  "Distance, containment and intersection tests between points, balls and boxes, and the opening criteria, answer as elementary geometry does, the same from either side, in every dimension and at every scale. "
  "A search around any point with any radius returns every particle whose distance is less than the larger of that radius and its own, each once, and none farther away. "
  "This holds for every set of particles at distinct positions and every tree over it, also after particles moved and the tree was built again.",
  ["inputs", "histories"],
  "for every configuration of points, balls and boxes, including touching ones, every particle set and every search",
  "one test searches around the particles of one uniform random set with one radius",
  ["include/tree_topology/tree_geometry.h", "include/tree_topology/tree_topology.h", "include/physics/default_physics.h"],
  [("tree_geometry", "include/tree_topology/tree_geometry.h"), ("find_in_radius, build_tree, reset_ghosts", "include/tree_topology/tree_topology.h"), ("compute_cofm", "include/physics/default_physics.h")])

p("C31", "A simulation run in pieces is the simulation run at once",
  "A run resumed from any snapshot of an earlier run goes on from exactly the particles, state, time and iteration of that snapshot and, with a fixed step and fixed smoothing lengths, passes through the states and totals the uninterrupted run passes through, up to what the scheme's own first step changes (which vanishes with the step). "
  "Over any chain of runs on any numbers of processes, the output then holds every snapshot due exactly once, in order, at the times its iterations stand for. "
  "This holds for initial data of any generator, in one file or a file per snapshot, whichever energy is evolved.",
  ["histories", "configurations", "inputs"],
  "for every set-up, every place to stop and resume and every sequence of process counts",
  "no test resumes a run",
  ["app/drivers/hydro/main_driver.cc", "app/drivers/newtonian/main_driver.cc", "include/physics/", "mpisph/io.h"],
  [("mpi_init_task", "app/drivers/hydro/main_driver.cc"), ("inputDataHDF5, outputDataHDF5", "mpisph/io.h"), ("advance_time, set_initial_time_iteration", PH + "default_physics.h")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    print(len(P))
