"""property -> (module of checks/, level, technique, level note)"""
MC, EX = "model_checking", "exploration"
TT = "TLA+ trace validation (TLC) of the real tree code on simulated ranks"
TN = ("Every recorded step of the real tree code, for all scenarios explored, is a step the specification allows; "
      "small scopes of the design are explored exhaustively. Trusts TLC, the simulated MPI network (sim/simmpi.cc) and the harness; "
      "bounded to the generated particle sets, 1-8 ranks, and seeded message schedules.")
CHECKS = {i: ("tree", MC, TT, TN) for i in ("C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09")}
CHECKS["C01"] = ("curve", MC, "TLA+ refinement specification of the curve and key machine; TLC validates exhaustive and random traces of the real classes",
    "Exhaustive over all cells to a small depth and over the key machine's small scope; random at full depth. Trusts TLC and the harness's independent digit extraction.")
CHECKS["C22"] = ("tensor", MC, "TLA+ specification of tensors as maps from component classes to values; TLC validates traces of the real class",
    "All ranks 1-4 and dimensions 1-4; all components after every step of random histories. Trusts TLC and the harness.")
CHECKS["C24"] = ("kernel", MC, "TLA+ specification of a kernel swept from the origin outwards; TLC validates sweeps of the real kernels",
    "All kernels and dimensions on a grid of separations and random smoothing lengths. Trusts TLC and finite differences to 1e-5.")
CHECKS["C23"] = ("hash", MC, "TLA+ specification of the table as a partial map; TLC validates random and exhaustive short histories of the real class",
    "Exhaustive over short histories of three keys, random beyond. Trusts TLC and the harness.")
DY = "TLA+ specification of the particle dynamics (products and pair sums); TLC validates whole runs of the real drivers on simulated ranks"
DN = ("The sums of every record of random runs are those over all pairs, rebuilt from the recorded state by an independent model. "
      "Trusts TLC, the simulated MPI network and the harness; comparisons to about 1e-6 of the largest term.")
for i in ("C10", "C13", "C18", "C19"):
    CHECKS[i] = ("dyn", MC, DY, DN)
CHECKS["C16"] = ("param", MC, "TLA+ specification of the reader of parameter files, character by character; TLC validates runs of the real reader on simulated ranks",
    "Every parameter and type, well-formed and malformed lines generated at random, all shipped files, 1-8 ranks. Trusts TLC and the simulated MPI network.")
CHECKS["C20"] = ("coll", MC, "TLA+ specification of each collective as one atomic step; TLC validates histories of the real helpers on simulated ranks under adversarial schedules",
    "Random histories over counts, types, 1-8 ranks and schedules. Trusts TLC and the simulated MPI network.")
for i in ("C11", "C12"):
    CHECKS[i] = ("stepping", MC, "TLA+ specification of time control and output channels; TLC validates whole runs of the real drivers on simulated ranks",
        "Random step limits, output intervals, starts, restarts and ends; 1-4 ranks, three dimensions. Trusts TLC, the simulated MPI network and the scripted particle limits.")
CHECKS["C25"] = ("force", MC, "TLA+ specification of a test particle carried through the external field; TLC validates closed walks through the real potentials and accelerations",
    "Every selectable field and lists of them on random walks with random parameters. Trusts TLC, quadrature of the recorded accelerations and the harness; energies to 1.5e-4.")
CHECKS["C26"] = ("eosc", MC, "TLA+ specification of a fluid element compressed along its adiabat; TLC validates closed walks through the real equations of state",
    "All equations of state on random adiabats and densities. Trusts TLC, quadrature and the harness; values to 2e-5.")
CHECKS["C21"] = ("lattice", MC, "TLA+ specification of the lattices as sets of sites; TLC enumerates the sites of each domain and validates what the real generators produce",
    "Random domains of all types and dimensions; TLC proves the specified lattices regular on a block. Trusts TLC and the harness's rounding to sites.")
CHECKS["C17"] = ("bound", MC, "TLA+ specification of the periodic system (wrapping, images, neighbours); TLC validates iterations of the real set-up on simulated ranks",
    "Random particle sets, boxes and periodic directions on 1-5 ranks. Trusts TLC, the simulated MPI network and the harness.")
CHECKS["C14"] = ("snap", MC, "TLA+ specification of the directory of snapshots and the runs that write and read it; TLC validates histories of real runs (MPI, HDF5) against it",
    "Random histories of runs with 1-5 ranks; files are read back by a separate HDF5 program. Trusts TLC, MPI, HDF5 and the harness.")
CHECKS["C15"] = ("snap", MC, "TLA+ specification of the directory of snapshots and the runs that write and read it; TLC validates histories of real runs (restarts, MPI, HDF5) against it",
    "Random histories of runs and restarts with 1-5 ranks; files are read back by a separate HDF5 program. Trusts TLC, MPI, HDF5 and the harness.")
CHECKS["C27"] = ("profile", MC, "TLA+ specification of a probe moved through a radial profile; TLC validates walks through the real density, mass and slope functions",
    "All profiles and 1-3 dimensions on random walks, random rims and tables. Trusts TLC, quadrature and the harness; values to 6e-6.")
CHECKS["C28"] = ("initdata", MC, "TLA+ specification of initial data read particle by particle (states of the regions, mass, energy, hydrostatic column); TLC validates the files real generators write",
    "All generators on random parameter files, one process each; files are read back by a separate HDF5 program. Trusts TLC, HDF5 and the harness.")
CHECKS["C29"] = ("wvt", MC, "TLA+ specification of a relaxation run (displacement, folding at the boundary, smoothing lengths, convergence); TLC validates every iteration of the real driver on simulated ranks",
    "Random particle sets and parameters in 2 and 3 dimensions on 1-4 ranks. Trusts TLC, the simulated MPI network, the pair terms of the reference and the harness.")
CHECKS["C30"] = ("geom", MC, "TLA+ specification of points, balls and boxes on a grid; TLC validates the real predicates and searches of the real tree",
    "All pairs of a small grid and random configurations, near ties in both directions; searches over random trees. Trusts TLC and the harness.")
CHECKS["C31"] = ("whole", MC, "TLA+ specification of a simulation run in pieces; TLC validates chains of real programs (generator, driver, restarts; MPI, HDF5) against the uninterrupted run",
    "Random set-ups of the generators, 1-4 processes, fixed steps so short that the scheme's own start-up error is far below the tolerance. Trusts TLC, MPI, HDF5 and the harness.")
NOT_APPLICABLE = {}
