P = []


def add(id, check, title, statement, over, qtext, why, files, mech, tech, note, **kw):
    P.append(dict(id=id, check=check, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note, **kw))


add("C01", "c01_units", "Unit conversion is exact, linear, invertible and prefix-consistent",
    "Converting any quantity from any supported unit (with any SI prefix) to the internal atomic units and back returns the original, "
    "scales linearly, and agrees with the physical definition of the unit and with the prefix's power of ten; the same quantity gives the same "
    "internal value whether it is given in an input tag, an array or a trajectory file header. An unknown dimension or unit is refused rather than silently treated as 1.",
    ["inputs"], "every dimension, unit, prefix, value and the different places where units may be written",
    "the tests convert a handful of values; the set of (dimension, prefix, unit, value, place) is open ended",
    ["ipi/utils/units.py", "ipi/utils/inputvalue.py", "ipi/utils/io/io_units.py"],
    [("unit table and prefix table", "ipi/utils/units.py"), ("units attribute of input values", "ipi/utils/inputvalue.py")],
    "generated (dimension, prefix, unit, value) against an independent table and metamorphic relations (round trip, linearity, composition)",
    "Searches all dimension/unit/prefix combinations with random values against a table written from physical definitions; tolerance covers the documented rounding of constants.")

add("C02", "c02_inputs", "The input language: what is written is what is read, and nonsense is refused",
    "Every value, array, dictionary, list of strings or nested tag that can be put in an input file is read as exactly that value, whatever the layout, white space, comments or units used; "
    "what the program writes for an input object reads back as the same object. Misspelt tags, attributes and options, values of the wrong type or outside the allowed options, and missing compulsory fields are refused with an error.",
    ["inputs"], "all values, array shapes, nestings, layouts and malformed variants of the documents",
    "the tests parse a few fixed documents; layouts, shapes and corruptions are unbounded",
    ["ipi/utils/inputvalue.py", "ipi/utils/io/inputs/io_xml.py", "ipi/inputs/"],
    [("Input.parse / write", "ipi/utils/inputvalue.py"), ("xml_parse_string, read_type, write_type", "ipi/utils/io/inputs/io_xml.py")],
    "grammar-based generation of documents and values; write/parse round trips, reference parser, mutation of valid documents",
    "Random documents against the values they were generated from; round trips through every input class; malformed variants must raise.")

add("C03", "c03_restart", "Stopping and continuing from a restart file changes nothing",
    "A simulation that is stopped after any number of steps and continued from its restart or checkpoint file, any number of times, ends with the same positions, momenta, cell, conserved quantity, "
    "random-number state and output files as one that was never stopped. This holds for all dynamics modes, thermostats, barostats, optimisers, ramps, Monte Carlo moves and replica exchange.",
    ["inputs", "crash_points", "histories"], "every simulation set-up, every stopping step and every sequence of restarts",
    "the tests restart one or two fixed inputs at one step; state that is not saved, or caches that are stale in the running process, show only for particular combinations",
    ["ipi/engine/simulation.py", "ipi/inputs/", "ipi/engine/outputs.py", "ipi/engine/thermostats.py", "ipi/engine/barostats.py", "ipi/engine/motion/", "ipi/engine/smotion/"],
    [("store() of every input class writes the complete state", "ipi/inputs/"), ("CheckpointOutput and the RESTART file", "ipi/engine/outputs.py"), ("step counter and output append on restart", "ipi/engine/simulation.py")],
    "differential: random simulations run in one go against the same cut at random steps and continued from the files written",
    "Whole small simulations through the command-line path (load XML, run, soft exit); states compared to 1e-7. Restart through ASCII with 17 digits; two listed findings are excluded by construction.")

add("C04", "c04_store", "What the user asked for survives in the files the program writes",
    "Every option the user gives for a forcefield, force component, ensemble, output or motion class reappears with the same value in the input description that the program writes for the running objects (restart and checkpoint files), "
    "for every combination of options, and again after a second generation of restart; nothing is silently reset to its default.",
    ["inputs", "histories"], "every input class, every combination of options and values, repeated writing and reading",
    "tests write back default objects at most; an option that is forgotten in store() only shows for that option, in that mode, after a restart",
    ["ipi/inputs/forcefields.py", "ipi/inputs/forces.py", "ipi/inputs/outputs.py", "ipi/inputs/ensembles.py", "ipi/inputs/motion/"],
    [("store() and fetch() of each input class", "ipi/inputs/"), ("dispatch between motion classes and tags", "ipi/inputs/motion/motion.py")],
    "options generated from the declared fields of each input class; parse, fetch, store, write, parse again, compare, twice",
    "The generators are driven by the field tables of the classes, so new options are covered as they appear; options without meaning in a mode are listed in the check.")

add("C09", "c09_depend", "Derived quantities are never stale",
    "At any moment, every quantity the engine derives from others (transformed coordinates, energies, forces, virials, frequencies, masses, propagators, thermostat and barostat parameters, conserved quantity terms) has the value it would have "
    "if it were computed from scratch from the current primary values, whatever sequence of reads and writes of positions, momenta, masses, cell, temperature, pressure, time step, weights or slices of arrays came before.",
    ["inputs", "histories"], "all dependency graphs, and all sequences of reads, whole and partial writes in running simulations",
    "a missing dependency shows only after a particular quantity was read, then another written, then the first read again; the tests follow a few fixed orders",
    ["ipi/utils/depend.py", "ipi/engine/beads.py", "ipi/engine/normalmodes.py", "ipi/engine/forces.py", "ipi/engine/cell.py", "ipi/engine/thermostats.py", "ipi/engine/barostats.py", "ipi/engine/motion/dynamics.py"],
    [("depend_value, depend_array, dpipe, synchronizer", "ipi/utils/depend.py"), ("declared dependencies of each engine class", "ipi/engine/")],
    "stateful model-based testing: random dependency graphs against a recomputing model; running simulations mutated at random against freshly built ones",
    "The live part compares all depend objects reachable from the system with those of a simulation newly built in the same state; quantities that accumulate history (heat exchanged) are excluded.")

add("C11", "c11_nmtrans", "Normal-mode transforms and ring-polymer contraction are exact linear maps",
    "For any number of beads, atoms and open paths, and with either implementation (matrix or FFT), the transform between beads and normal modes is orthogonal, its inverse undoes it, it diagonalises the spring matrix of closed (cyclic) or open (linear) paths, "
    "its first mode is the centroid times the square root of the number of beads, and both implementations agree. Contraction to fewer beads keeps exactly the lowest-frequency modes, contraction followed by expansion of the result loses nothing, "
    "expansion of forces is the transpose of the contraction of positions (so that contracted forces derive from the contracted potential), and constants and centroids are preserved.",
    ["inputs"], "all numbers of beads, atoms, sets of open paths, transform implementations and data",
    "tests use a few bead numbers and closed paths; parity of the bead number, open atoms and contraction ratios interact",
    ["ipi/utils/nmtransform.py", "ipi/engine/normalmodes.py"],
    [("nm_trans, nm_fft, nm_rescale and their matrices", "ipi/utils/nmtransform.py")],
    "random bead numbers, open paths and vectors against dense linear algebra (eigenvectors of the spring matrix), metamorphic relations and a differential between the two implementations",
    "Tolerances of 1e-10 relative; up to 24 beads.")

add("C12", "c12_freerp", "The free ring polymer: spring energies, mode masses and propagators",
    "For any beads, masses, temperature, open paths and choice of normal-mode masses (rpmd, pa-cmd, wmax-cmd, manual), spring energy and forces are those of the harmonic chain with frequency kT P/hbar, the kinetic energy uses the requested mode masses, "
    "and one simulation step without external forces moves positions and momenta exactly as the requested propagator (exact, Cayley, or bab with its number of sub-steps) prescribes, conserving the energy for exact and Cayley.",
    ["inputs"], "all path lengths, masses, frequencies, open paths, propagators and time steps",
    "tests run a handful of fixed inputs with the exact propagator and compare to stored numbers",
    ["ipi/engine/normalmodes.py"],
    [("prop_pq, o_prop_pq, dynm3, free_qstep, free_babstep, free_p", "ipi/engine/normalmodes.py")],
    "random free paths propagated by whole simulation steps against dense matrix exponentials, Cayley transforms and a reference bab loop",
    "Frequencies up to w dt = 6; 1-9 beads, 1-3 atoms.")

add("C13", "c13_bosons", "Bosonic exchange: energies and forces are those of the sum over permutations",
    "For any set of bosonic atoms, beads, masses and temperature, the bosonic spring potential equals -kT log of the average over all permutations of the Boltzmann weights of the connected ring polymers, its forces are the exact negative gradient, "
    "the kinetic-energy estimators and the fractions of longest and distinguishable paths are the corresponding averages, and relabelling identical bosons changes nothing.",
    ["inputs"], "all numbers of bosons, beads, positions, masses and temperatures",
    "tests compare a few stored configurations; the recursion has boundary cases in the number of bosons and beads",
    ["ipi/utils/exchange.py", "ipi/engine/normalmodes.py"],
    [("ExchangePotential recursions", "ipi/utils/exchange.py")],
    "random configurations against explicit enumeration of all permutations (up to 5 bosons), finite differences and relabelling",
    "The enumeration is exact; larger numbers of bosons are covered by gradient and relabelling relations.")

add("C14", "c14_nve", "Constant-energy dynamics follows the Hamiltonian that is reported",
    "For any system, number of beads, force components with weights, contraction and multiple time-step levels, bias, Hamiltonian weights, normal-mode masses, open paths, fixed atoms and fixed centre of mass, one NVE step is exactly the symmetric nested (multiple time step) "
    "kick / free-path / kick scheme with the forces of the reported potential and bias; running forth and back with reversed momenta returns to the start; the conserved quantity is kinetic + spring + potential + bias energy plus what constraints removed, and centroids of fixed coordinates do not move. "
    "The same holds for the Hamiltonian part of the constant-temperature integrators: nvt, nvt-cc (where the centroid moreover never moves) and sc (where the Suzuki-Chin terms are part of the forces and of the conserved quantity).",
    ["inputs", "histories"], "all systems, force decompositions, time-step levels, constraints, biases, and numbers of steps",
    "tests compare a few regression inputs; a sub-step count, weight or constraint applied in the wrong place only shows in particular combinations",
    ["ipi/engine/motion/dynamics.py", "ipi/engine/ensembles.py", "ipi/engine/forces.py", "ipi/engine/normalmodes.py"],
    [("NVEIntegrator, mtsprop, pconstraints", "ipi/engine/motion/dynamics.py"), ("econs, has_bias, bias components", "ipi/engine/ensembles.py")],
    "differential against an independent reference integrator, plus time reversal and an independent energy",
    "Smooth test potentials evaluated in process; relative tolerance 1e-7; 1-4 steps, up to 3 levels, 5 beads, 3 atoms.")

add("C19", "c19_forces", "Forces, energies, virials and extras are the weighted sums of their components",
    "Whatever the force components, weights (zero and negative included), numbers of beads they are contracted to, multiple time-step weights, offsets, batching and threading of the forcefields, the force, potential and virial of the system, of each time-step level and of each component (weighted or not, expanded or not) "
    "are the linear combinations these settings define, and extras are combined likewise (interpolated, overwritten or concatenated as asked); this stays true after positions, cell or weights change, for clones, and after force states are transferred or reloaded.",
    ["inputs", "histories"], "all decompositions into components, weights, contractions, levels, forcefield options and sequences of changes",
    "tests check one or two components in fixed settings; results depend on combinations and on what was computed before",
    ["ipi/engine/forces.py", "ipi/engine/forcefields.py"],
    [("Forces.*_combine, *_component, mts_forces", "ipi/engine/forces.py"), ("queue, release and batching of requests", "ipi/engine/forcefields.py")],
    "random decompositions and histories of changes against a reference sum with Fourier contraction",
    "The forcefields are the check's own analytic potential through ffdirect, with batches and threads.")

add("C15", "c15_thermo", "Thermostats damp, heat and account for heat exactly as their equations say",
    "For every thermostat (langevin, svr, pile_l, pile_g, gle, nm_gle, nm_gle_g, cl, ffl, multi), masses, bead number, normal-mode masses, temperature, coupling and splitting, one thermostat step damps momenta (and auxiliary momenta) by exactly the exponential of the drift over the thermostat's share of the time step, "
    "adds noise whose covariance is C - T C T^T for the target temperature times the number of beads (fluctuation-dissipation), and for velocity rescaling draws the kinetic energy from its exact law with the number of unconstrained degrees of freedom; "
    "the heat exchanged is booked so that the conserved quantity does not change, and per simulation step the thermostat acts for exactly one time step.",
    ["inputs"], "all thermostats, parameters, masses, beads, constraints, splittings and momenta",
    "sampling tests would need long runs to see a wrong temperature; regression tests fix one parameter set",
    ["ipi/engine/thermostats.py", "ipi/engine/motion/dynamics.py"],
    [("step() of each thermostat; T, S coefficients", "ipi/engine/thermostats.py"), ("tdt, obabo and baoab", "ipi/engine/motion/dynamics.py")],
    "damping matrix and noise covariance measured column by column with scripted random deviates, against matrix exponentials; distribution tests of velocity rescaling against the noncentral chi-square law",
    "Statistical thresholds of 8 standard errors / p = 1e-12 so that no run fails by chance; linear parts to 1e-9.")

add("C25", "c25_prng", "Random numbers are complete, correctly distributed and reproducible",
    "Whatever was drawn before and however many threads are used: two generators with the same seed give the same numbers, saving the state (in memory or in a restart file) and restoring it continues with exactly the same numbers, different seeds differ, every element of a requested array is a fresh deviate, "
    "and uniform, Gaussian, gamma, Poisson, integer and shuffle draws follow their distributions.",
    ["inputs", "histories"], "all seeds, histories of draws, shapes, thread counts",
    "tests draw a few numbers from one generator in the default, single-threaded setting",
    ["ipi/utils/prng.py", "ipi/inputs/prng.py"],
    [("Random: gvec/gfill serial and threaded, state", "ipi/utils/prng.py"), ("InputRandom store/fetch", "ipi/inputs/prng.py")],
    "random histories of draws with save/restore at a random point (differential), and goodness-of-fit tests",
    "KS and chi-square thresholds at 1e-13.")

add("C16", "c16_baro", "Constant-pressure dynamics follows the enthalpy and respects cell constraints",
    "For every barostat, external pressure or stress, number of beads and time-step levels: the cell is accelerated by the derivative of the enthalpy (with centroid kinetic term and Jacobian); with the thermostats off, the conserved quantity is "
    "the sum of its defined terms and its drift vanishes with the time step, and the motion is reversible; isotropic barostats keep the shape of the cell; cell components held fixed (hfix), and the volume when it is constrained, do not change, "
    "also with cell thermostats and in either splitting; the cell stays upper triangular.",
    ["inputs", "histories"], "every barostat, constraint set, stress, cell, potential, number of beads, splitting and time step",
    "the tests store trajectories of a few inputs, which detect changes but cannot tell right from wrong, and rarely use constraints, stress or Suzuki-Chin",
    ["ipi/engine/barostats.py", "ipi/engine/motion/dynamics.py", "ipi/engine/forces.py"],
    [("pstep, qcstep, pconstraints of each barostat", "ipi/engine/barostats.py"), ("NPT, NST and SCNPT integrators", "ipi/engine/motion/dynamics.py"), ("Suzuki-Chin virial", "ipi/engine/forces.py")],
    "finite differences of the enthalpy, time-step refinement, forward-backward runs and constraint invariants over generated systems",
    "Four generators of constant-pressure runs. Conservation with free off-diagonal cell components is a listed finding and excluded; the weights of the Jacobian with fixed ones too.")

add("C22", "c22_socket", "Every force request to socket clients is answered, and with its own result",
    "As long as one working client is connected, every force request sent over unix, internet or shared-memory sockets is answered with the result computed for exactly its own positions, cell and active atoms (with offset, virial and extra string), however many clients there are, whichever way they are matched, however messages are cut in pieces, "
    "and whether other clients are slow, ask to be initialised again, hang, or disconnect at any point of the exchange; requests are neither lost, mixed up nor affected by later changes of the structure; a good client is never driven out of protocol, gets the parameters of the forcefield at initialisation, and is told to exit at the end.",
    ["inputs", "schedules", "crash_points", "histories"], "all populations of clients, matchings, fault points, fragmentations, request histories and timings",
    "tests connect well-behaved drivers; a fault at a particular point of the protocol never occurs in them",
    ["ipi/interfaces/sockets.py", "ipi/engine/forcefields.py"],
    [("Driver: get_status, sendpos, getforce, dispatch", "ipi/interfaces/sockets.py"), ("InterfaceSocket: pool_update, pool_distribute", "ipi/interfaces/sockets.py"), ("queue and release of requests", "ipi/engine/forcefields.py")],
    "scripted clients with generated faults (close, reset, hang, fragmentation, delays) at every protocol point, against the analytic result of each request and a protocol monitor in the clients",
    "Stateful protocol fuzzing of the real polling thread; a request counts as lost after 25 s without progress.")

add("C23", "c23_transport", "How forces are transported changes nothing; the Python driver keeps the protocol",
    "A simulation gives the same trajectory, potentials, virials, extras and conserved quantity whether its forces are evaluated in process, in a thread, in batches, or by any number of Python drivers over unix, internet or shared-memory sockets, with or without consolidated messages, for one or several systems. "
    "The Python driver answers every legal sequence of messages, however it is cut in pieces, with the status that is due, the results of the structures it was given (every array layout and text its potential returns), and ends when told to or when the connection closes.",
    ["inputs", "schedules", "histories"], "all simulations, transports, batch sizes, numbers of drivers, message sequences and fragmentations",
    "tests run one driver per example and compare nothing between transports",
    ["ipi/interfaces/sockets.py", "ipi/engine/forcefields.py", "drivers/py/driver.py"],
    [("socket and shared-memory messages, batches", "ipi/interfaces/sockets.py"), ("run_driver", "drivers/py/driver.py"), ("ffdirect threads and batches", "ipi/engine/forcefields.py")],
    "differential: random simulations with in-process forces against the same over a generated transport; model-based sessions of run_driver with a scripted fragmenting server",
    "Fortran and MPI drivers are not exercised.")

add("C06", "c06_output", "Output files hold what was asked for, when, and in the units asked for",
    "For any set of property, trajectory, extras and checkpoint outputs (names, arguments, units, stride, bead selection, format, prefix, flushing, one or several systems, with or without threads), a run writes exactly the requested files, with one record for the initial state and each multiple of the stride, labelled with its step and bead; "
    "each column is where the header says it is and holds the requested quantity of that step converted to the requested unit; trajectories carry the atom names, cell and units they announce; checkpoints hold the state of their step; and writing outputs does not change the dynamics.",
    ["inputs", "histories"], "all output sections over all simulations and run lengths",
    "regression tests compare a few fixed property lists with stored files, never the header against the data, and rarely units, beads or several systems",
    ["ipi/engine/outputs.py", "ipi/engine/properties.py", "ipi/engine/simulation.py", "ipi/inputs/outputs.py"],
    [("PropertyOutput, TrajectoryOutput, CheckpointOutput", "ipi/engine/outputs.py"), ("when outputs are written", "ipi/engine/simulation.py"), ("size and dimension of the properties", "ipi/engine/properties.py")],
    "generated output sections; files parsed independently and compared, step by step, with a run of the same simulation without outputs",
    "Formats xyz and pdb; atomic-unit values come from the property objects, whose definitions are C28. Appending after a restart is C03.")

add("C07", "c07_files", "Structure files are read back as written, and bad ones are refused",
    "Structures written in the xyz, pdb, json, binary and ase formats, in any units of the quantity and of the cell, are read back (whole file, frame by frame, with units taken from the file or given) with the same atoms, positions or other vectors and cell, within the precision of the format; "
    "files of other programs (pdb columns, xyz with the three ways to give a cell, ase) are read according to their format; a truncated or inconsistent last frame is refused rather than completed; and no existing file is overwritten: it is kept as a numbered backup, whatever other backups exist and in any directory.",
    ["inputs", "histories"], "all structures, magnitudes, cells, formats, units, numbers of frames and truncations",
    "tests read and write a handful of files with small positive coordinates",
    ["ipi/utils/io", "ipi/utils/io/io_units.py"],
    [("read_* and print_* of each format", "ipi/utils/io/backends"), ("auto_units, process_units", "ipi/utils/io/io_units.py"), ("open_backup", "ipi/utils/io/__init__.py")],
    "round trips and independent writers/readers over generated frames, with truncation at generated points",
    "Binary files hold a single frame.")

add("C08", "c08_init", "The initial state is what the initialize section asks for",
    "Whatever the order and mix of the entries of the initialize section (files of all formats, checkpoints, explicit arrays, thermal momenta; single beads, selected atoms, other numbers of beads; any units), the simulation starts from the positions, momenta or velocities, masses, labels and cell they define: "
    "explicit units are honoured, beads are contracted or expanded along the ring polymer, momenta of a single bead keep their velocity, thermal momenta have the requested temperature in the dynamical masses of every normal mode, and the additional momenta of a thermostat can be set.",
    ["inputs"], "all sequences of initialization entries, sources, units, bead numbers and selections",
    "tests initialize each quantity in one way, with matching numbers of beads and default units",
    ["ipi/engine/initializer.py", "ipi/inputs/initializer.py"],
    [("Initializer.init_stage1/2 and init_* functions", "ipi/engine/initializer.py")],
    "generated initialize sections against a reference model of their meaning; variance of thermal momenta per normal mode",
    "Statistical thresholds at 8 standard errors.")

add("C10", "c10_cell", "Cell geometry: volume, inverse, wrapping and minimum images are consistent",
    "For every (triclinic) cell and all positions, the volume, inverse, lengths and angles are those of the current cell vectors, conversions between vectors and lengths and angles are inverse to each other, wrapped positions lie in the cell and differ from the original ones by lattice vectors, "
    "distances under periodic boundary conditions are differences by lattice vectors and minimum images where the formula defines them, and all of this follows every change of the cell; forcefields with wrapping give clients wrapped positions and leave the trajectory unwrapped.",
    ["inputs", "histories"], "all cells, positions (also far outside the cell) and sequences of cell changes",
    "tests use orthorhombic cells and a few vectors",
    ["ipi/engine/cell.py", "ipi/utils/mathtools.py", "ipi/engine/forcefields.py"],
    [("Cell: V, ih, array_pbc, apply_pbc, minimum_distance", "ipi/engine/cell.py"), ("h2abc, abc2h, invert_ut3x3, det_ut3x3", "ipi/utils/mathtools.py")],
    "algebraic invariants over generated cells and positions, and simulations with and without wrapping",
    "Minimum images are those of the fractional-rounding formula.")

add("C28", "c28_estim", "Every property equals its definition, and evaluating it is harmless",
    "In any state of a simulation (after positions, momenta, cell or temperature changed, or steps were made; any potential split in contracted and weighted components, bias, constraints, bead number, normal-mode masses, Suzuki-Chin), every property and trajectory quantity, with any atom, bead, normal-mode and numeric arguments, "
    "has the value its definition gives for the current state: energies, temperatures with the constrained degrees of freedom accounted for, centroid-virial, primitive and fourth-order estimators, stresses, isotope and displaced-path free-energy perturbation, scaled-coordinates estimators, component contributions; and evaluating them, in any order and number, changes neither the state nor later values.",
    ["inputs", "histories"], "all states, histories, arguments, potentials, decompositions and masses",
    "regression tests store values for a few properties in fixed states with constant cells; nothing evaluates them against definitions or after the state changed",
    ["ipi/engine/properties.py", "ipi/engine/forces.py", "ipi/engine/normalmodes.py"],
    [("Properties.get_* functions", "ipi/engine/properties.py"), ("Trajectories.get_* functions", "ipi/engine/properties.py")],
    "about 100 requests per state with generated arguments, over histories of state changes, against independent formulas on the analytic test potential",
    "Boson estimators are in C13, electric-field quantities are not covered; Suzuki-Chin forces and virials by numerical derivatives.")

add("C21", "c21_pes", "Built-in potentials return forces and virials of their energy",
    "For every potential shipped with the Python driver (ipi/pes: harmonic, Morse, double wells, friction and bath models, splines, polynomial and spherical walls, the ASE interface) and with the Fortran driver (pair potentials, water models, model surfaces), with any of their parameters and for all structures, "
    "the energy is that of the documented formula, the forces are minus its derivatives with respect to positions, the virial minus its derivative with respect to strain where one is provided, and friction or dipole derivatives in the extras those of the formula; "
    "results do not depend on earlier calls, and evaluating a batch of structures gives the results of the single ones.",
    ["inputs", "histories"], "all potentials, parameters, structures and sequences of structures",
    "tests compare a few trajectories with stored numbers, which are reproduced just as well by wrong forces",
    ["ipi/pes", "drivers/f90", "drivers/py"],
    [("Driver classes of ipi/pes", "ipi/pes"), ("pair potentials, LEPS, water models", "drivers/f90/pes"), ("parameters and units of each model", "drivers/f90/driver.f90")],
    "numerical differentiation of the energy and independent formulas over generated parameters and structures; the Fortran driver is rebuilt and spoken to through its socket",
    "Potentials of machine-learning packages that are not installed, zundel and ch4hcbe are not covered; two known findings (qtip4pf-efield, pswater).")

add("C24", "c24_composite", "Composite and internal forcefields return what their definition says",
    "The energy, forces, virial and extras returned by a committee of forcefields (any number and kind of members, weights, error scaling, members read from JSON extras, weighted baseline, offsets), by a rotational average (either grid, any order, inversion, random rotations), by a molecule in an optical cavity (both photon representations, charges or dipole surface, several clients and systems), "
    "and by the internal Lennard-Jones, harmonic (Debye) and time-dependent driven (dmd) forcefields are those of the documented combination of the current results of the members for the current structure; the active-learning file holds exactly the structures above the threshold; forces are never handed out half made, whatever the relative speed of the threads.",
    ["inputs", "histories", "schedules"], "all members, weights, parameters, structures, numbers of beads and systems, and thread interleavings",
    "tests run one committee and one rotation example against stored output or not at all",
    ["ipi/engine/forcefields.py", "ipi/engine/smotion/dmd.py", "ipi/utils/mathtools.py"],
    [("FFCommittee.gather", "ipi/engine/forcefields.py"), ("FFRotations.queue/gather", "ipi/engine/forcefields.py"), ("FFCavPhSocket.queue, PhotonDriver", "ipi/engine/forcefields.py"), ("FFEval subclasses", "ipi/engine/forcefields.py")],
    "generated combinations against independent formulas and exact rotational averages of a test potential; slowed-down offsets and concurrent systems as schedules",
    "PLUMED, Yaff and sGDML are not installed; cavity with a single bath.")

add("C18", "c18_remd", "Replica exchange samples the right distribution and tracks the replicas",
    "In a replica-exchange simulation (ensembles that differ in temperature, pressure, stress, bias weights or Hamiltonian weights, any number of beads and systems, with or without rescaling of momenta), after any history two replicas exchange ensembles exactly when a Metropolis test on the joint probability of both accepts; an accepted exchange moves the whole ensemble, rescales particle, thermostat and barostat momenta to the new temperature, "
    "leaves positions and cells alone and the conserved quantities continuous; a rejected one leaves no trace; the replica index and the swap file always say which ensemble each system is in; and the forces after an exchange are those of the new ensemble.",
    ["inputs", "histories"], "all sets of ensembles, states and random numbers",
    "tests compare one temperature-exchange trajectory with stored output; nothing exchanges Hamiltonian or bias weights or pressures",
    ["ipi/engine/smotion/remd.py", "ipi/engine/ensembles.py"],
    [("ReplicaExchange.step", "ipi/engine/smotion/remd.py"), ("ensemble_swap, Ensemble.lpens", "ipi/engine/ensembles.py")],
    "a reference model of the exchange steps, with generated ensembles, states and the uniform random numbers under control, compared after every step",
    "Momenta are rescaled with the square root of the ratio of temperatures, those of the barostat (whose mass is proportional to the temperature) with the ratio.")

add("C05", "c05_exit", "A soft exit at any moment loses nothing",
    "Whenever a run is asked to stop (a termination signal, Ctrl-C or the EXIT file), at whatever point of its work, it ends in good order and leaves a RESTART file that can be loaded and that describes a complete step; continuing from it, as often as one likes, "
    "ends in the same final state as a run that was never interrupted, no step is skipped or done twice, and the property and trajectory files taken together have exactly the rows and frames of the uninterrupted run, each complete.",
    ["crash_points", "schedules", "histories"], "every point of the program (line of code executed) at which the request may come, every kind of request and every sequence of interruptions",
    "the tests never interrupt a run; the window between the parts of a step, its output and its checkpoint is hit only by placing the request there",
    ["ipi/utils/softexit.py", "ipi/engine/simulation.py", "ipi/engine/outputs.py", "bin/i-pi"],
    [("Softexit.trigger and its signal handlers", "ipi/utils/softexit.py"), ("Simulation.run, step bookkeeping and rollback", "ipi/engine/simulation.py"), ("CheckpointOutput.store and status", "ipi/engine/outputs.py")],
    "fault injection: the real program in a child process, a line-level tracer delivers the request at a generated point; differential against the uninterrupted run",
    "Deterministic dynamics with stochastic thermostats (the random state is part of the restart file); one request per run (a second Ctrl-C is documented to kill); SIGKILL is outside.")

add("C17", "c17_fix", "What is constrained stays where it is, in every ensemble",
    "With a fixed centre of mass the total momentum stays zero and the centre of mass does not move (relative to the cell, where the cell moves), and with fixed atoms or fixed coordinates these keep their position and have no momentum, over any history in any ensemble, thermostat, barostat, splitting, number of beads and time-step levels, with or without a bias; "
    "momentum of the centre of mass that is present at the start or put in by a thermostat is taken out without a jump of the conserved quantity and without any effect on the rest of the motion.",
    ["inputs", "histories"], "all systems, ensembles, thermostats, constraints and initial momenta",
    "tests have one NVE case with fixed atoms; leaks appear only with particular thermostats, masses or splittings",
    ["ipi/engine/motion/dynamics.py", "ipi/engine/thermostats.py", "ipi/engine/barostats.py", "ipi/engine/normalmodes.py"],
    [("DummyIntegrator.pconstraints", "ipi/engine/motion/dynamics.py"), ("fixdof of the thermostats", "ipi/engine/thermostats.py")],
    "invariants over generated simulations after every few steps; metamorphic relation between runs that differ by a uniform velocity",
    "Beads of a fixed coordinate start on top of each other (as the program writes them); fixed atoms are refused by the program in constant-pressure ensembles and with some thermostats.")

add("C26", "c26_geop", "Geometry optimisers go downhill, converge, and stop exactly when they say",
    "From any structure, with any potential, number of beads, fixed atoms or coordinates and options, each optimiser (bfgs, bfgstrm, damped_bfgs, lbfgs, sd, cg) keeps the positions finite and the fixed coordinates in place, never raises the energy (damped_bfgs excepted, whose steps never exceed the biggest step), leaves forces that belong to the current positions, makes progress while there are forces, and reaches the minimum of a convex potential; "
    "it declares convergence exactly when energy change, forces and displacement are all within the tolerances given, does not move afterwards, and the simulation then exits with a RESTART file holding the converged structure.",
    ["inputs", "histories"], "all structures, potentials, constraints, optimisers and their options",
    "tests compare a few trajectories of optimisers with stored output",
    ["ipi/engine/motion/geop.py", "ipi/utils/mintools.py"],
    [("optimizers and convergence test", "ipi/engine/motion/geop.py"), ("line searches, BFGS, L-BFGS, trust radius", "ipi/utils/mintools.py")],
    "generated potentials and starting points; invariants after every step against an independent evaluation of the potential",
    "Step budgets far above what is needed; trust-radius BFGS near saddle points with very soft modes is excluded from the progress requirement (see DESIGN.md).")

add("C27", "c27_vib", "Hessians and normal modes are those of the potential",
    "A vibrational analysis (plain, normal-mode or energy-scaled finite differences, any displacement, fixed atoms or coordinates, acoustic sum rule for crystals, molecules and linear molecules, diagonal shift) writes the dynamical matrix and Hessian of the potential within the error of finite differences, projected and shifted as asked, with matching orthonormal eigenvectors, eigenvalues and cartesian modes, also when continued from a checkpoint; "
    "the Hessian of the instanton code can be resumed after a crash at any evaluation or in the middle of writing a temporary file, with the same result; the removal of external modes leaves exactly the eigenvalues and eigenvectors of the internal ones.",
    ["inputs", "crash_points"], "all structures, masses, potentials, options and crash points",
    "tests compare one phonon run with stored output and never resume",
    ["ipi/engine/motion/phonons.py", "ipi/utils/hesstools.py"],
    [("DynMatrixMover and the phonon calculators", "ipi/engine/motion/phonons.py"), ("get_hessian, clean_hessian, get_dynmat", "ipi/utils/hesstools.py")],
    "generated potentials against fourth-order differences of the exact forces and independent projectors; crashes injected into evaluations and file writes",
    "clean_hessian is not judged for (nearly) linear or symmetric tops.")

add("C29", "c29_constr", "Constrained dynamics keeps to its constraints and conserves energy",
    "In classical dynamics with holonomic constraints (distances, angles, Eckart conditions, several of them solved together or in separate groups, target values given or taken from the structure), after every step the constraints hold within the tolerance of the solver in the norm asked for, no velocity points along a constraint, and a fixed centre of mass stays at rest; "
    "without a thermostat the motion is time reversible and the conserved quantity varies by an amount of second order in the time step; with one the heat exchanged is accounted for; the temperature counts the degrees of freedom that are left; a restarted run continues exactly.",
    ["inputs", "histories"], "all molecules, constraints, splittings, time-step levels and solver options",
    "the only example of this code in the test tree is marked as broken",
    ["ipi/engine/motion/constrained_dynamics.py", "ipi/utils/constrtools.py"],
    [("constrained integrators", "ipi/engine/motion/constrained_dynamics.py"), ("constraint functions and Jacobians", "ipi/utils/constrtools.py")],
    "generated molecules and constraints; invariants after every step against independent definitions of the constraints, time reversal, convergence of the energy error, kill-and-restart",
    "One bead, as the code requires; well separated atoms and time steps at which the solver converges.")

add("C30", "c30_mc", "Monte Carlo exchanges of atoms sample the Boltzmann weights",
    "Atom swaps and alchemical exchanges, with any species, number of beads, potentials, contracted forces and bias, exchange only atoms of the species listed; a swap moves whole ring polymers and leaves names, masses and momenta alone, an alchemical exchange permutes names and masses together and leaves positions and the kinetic energy of each atom alone; "
    "the conserved quantity does not change, forces belong to the current positions, the assignments of atoms to positions are visited with their Boltzmann weights (potential, bias and spring energy), the number of attempts in a step follows a Poisson distribution with the requested average, and a restarted run continues exactly, alone or combined with dynamics.",
    ["inputs", "histories"], "all systems, species lists, numbers of attempts and temperatures",
    "tests have one short trajectory of each; the weights are a statistical property",
    ["ipi/engine/motion/atomswap.py", "ipi/engine/motion/alchemy.py", "ipi/engine/motion/multi.py"],
    [("AtomSwap.step", "ipi/engine/motion/atomswap.py"), ("AlchemyMC.step", "ipi/engine/motion/alchemy.py")],
    "generated systems; invariants after every step, and the frequencies of all assignments in a long chain against the enumerated distribution",
    "Weights are compared within six standard errors (block averages) plus 0.01, for two or three atoms.")

add("C31", "c31_schedule", "Ramps, electric fields and replayed trajectories follow their schedule",
    "A temperature or pressure ramp sets at every step exactly the value of its linear or logarithmic schedule, from the requested first to the requested last value in the units given, whatever other motion it is combined with, and stays at the last one; "
    "the driven dynamics apply at every time the requested electric field (amplitude, frequency, phase, envelope, static Born charges or those of the driver), with any splitting and multiple time stepping, and the trajectory is that of the field-free integrator with the force of the field added; a restarted run continues exactly; "
    "a replay visits the frames of the trajectory in order, in xyz, pdb or ASE format, in any units and number of beads, setting positions and cell and the properties computed from them, and ends with the trajectory.",
    ["inputs", "histories"], "all schedules, units, fields, splittings, formats and restart points",
    "tests run one trajectory of each or none; schedules depend on time, units and combination with other motions",
    ["ipi/engine/motion/ramp.py", "ipi/engine/motion/driven_dynamics.py", "ipi/engine/motion/replay.py", "ipi/inputs/motion/ramp.py", "ipi/inputs/motion/driven_dynamics.py"],
    [("TemperatureRamp.step", "ipi/engine/motion/ramp.py"), ("DrivenDynamics", "ipi/engine/motion/driven_dynamics.py"), ("Replay.step", "ipi/engine/motion/replay.py")],
    "generated schedules, fields and trajectories against closed formulas and an independent integrator; kill-and-restart",
    "Constant or driver-supplied Born charges without dependence on time; frames in xyz, pdb and ASE formats.")

add("C32", "c32_script", "Scripts see and set the same simulation as input files do",
    "For any simulation, running it from Python in pieces of any length gives the same states and outputs as one run from the command line; properties, outputs and structures read from it, and structures given to it as positions, cells, momenta, are converted in units and layout without loss, for any number of systems and beads, and everything derived (forces, energies) follows the new structures; "
    "thermalized momenta have the Maxwell distribution at the temperature asked for; the reading functions return from every output and trajectory file exactly the numbers, units, cells, steps and names that were written; the input templates produce inputs with exactly the parameters given.",
    ["inputs", "histories"], "all systems, run lengths, structures, outputs and template parameters",
    "tests compare a few structures; conversions depend on units, cell, numbers of beads and systems",
    ["ipi/scripting/interactive.py", "ipi/scripting/parsing.py", "ipi/scripting/templates.py"],
    [("InteractiveSimulation", "ipi/scripting/interactive.py"), ("read_output", "ipi/scripting/parsing.py"), ("simulation_xml", "ipi/scripting/templates.py")],
    "generated simulations, structures and output files; differential against the command line, round trips and independent unit factors",
    "Units compared within 1e-5 (different CODATA sets).")

add("C33", "c33_tools", "The installed analysis tools agree with an independent analysis of the files",
    "For files in any units and with any number of frames, beads, atoms and systems: i-pi-contract-trajectory writes the ring polymer contraction of the paths (or their centroid) with names and cell, i-pi-mux-positions the selected frames of all beads in order, wrapped into the cell or unwrapped along the trajectory, i-pi-posforce2kinetic and i-pi-kinetic2tag the centroid-virial kinetic energy tensors and the eigenvalues of their triangular averages, i-pi-mergebeadspdb whole paths with their bonds, "
    "i-pi-committee-reweight the averages and uncertainties of its reference (cumulant and direct reweighting, several observable models, any stride), i-pi-getproperty exactly the columns of a property, i-pi-trimsim the outputs as they were at a checkpoint, and i-pi-remdsort outputs in which every file belongs to one and the same ensemble at every step, with nothing lost or duplicated.",
    ["inputs", "histories"], "all files, units, strides, numbers of beads and systems",
    "the tools have no tests except one example each for correlation functions",
    ["tools/py/contract-trajectory.py", "tools/py/mux-positions.py", "tools/py/posforce2kinetic.py", "tools/py/kinetic2tag.py", "tools/py/mergebeadspdb.py", "tools/py/committee-reweight.py", "tools/py/getproperty.py", "tools/py/trimsim.py", "tools/py/remdsort.py"],
    [("contract_trajectory", "tools/py/contract-trajectory.py"), ("main", "tools/py/remdsort.py"), ("CEA", "tools/py/committee-reweight.py")],
    "generated files and generated simulations; tools run as from the command line against formulas and parsers written independently",
    "Extras of one line; cells the same for all beads of a frame.")

add("C34", "c34_neb", "Elastic bands: ends stay put, and convergence is declared exactly when due",
    "For any nudged elastic band calculation (number of images, force weight, springs, tangents, optimiser fire or damped_bfgs, fixed coordinates, climbing image): the end points and the fixed coordinates never move; after every step the potentials and forces that are reported "
    "are those of the potential at the reported positions, in the band and in the climbing stage; the optimisation ends (or goes over to climbing) after exactly those steps in which the change of energy, the largest component of the band force "
    "(perpendicular force plus springs along the tangent; for the climbing image the force with its component along the path reversed) and the largest displacement are all within their tolerances; only the highest image climbs, and climbing of an end point is refused; a band continued from a restart file moves as one that was never stopped.",
    ["inputs", "histories"], "all bands, optimisers, tolerances, constraints, and stopping points",
    "one regression test runs one band; a force or convergence test taken from a wrong image, stage or weight shows only in other set-ups",
    ["ipi/engine/motion/neb.py", "ipi/utils/mintools.py", "ipi/engine/forces.py"],
    [("NEBGradientMapper, NEBClimbGrMapper, NEBMover.step", "ipi/engine/motion/neb.py"), ("transfer_forces_manual", "ipi/engine/forces.py"), ("FIRE, Damped_BFGS", "ipi/utils/mintools.py")],
    "stateful property-based testing against an independent band force and convergence rule, and restart differential",
    "Bands of 3-7 images and 1-2 atoms, up to 40 steps; one force component.")
