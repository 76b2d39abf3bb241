#!/usr/bin/env python3
"""Source of truth for /verif/properties.jsonl (run it after editing)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                   observe_at=observe,hook_needed=hook)))

U="CPPQEDutils/"; C="CPPQEDcore/"; E="CPPQEDelements/"

prop("C01","A run prints at exactly the scheduled instants and stops at exactly its end time",
 "For every combination of run settings (end time or number of intervals, streaming by time interval or by number of adaptive steps, header on or off), a fresh run prints one data line for the initial instant, one for each scheduled instant and one for the final instant, with none missing, repeated or out of order, and leaves the trajectory at exactly the requested time (an interval that does not divide the run is cut short at the end). "
 "When streaming by time interval the number-of-intervals setting takes precedence over the end time, and step-counting takes precedence over the time interval (running up to the end time); a run whose end time has already been reached changes and prints nothing, a zero end time prints the present state once, and a run with neither a step count nor an interval is rejected. "
 "Everything that is not a data line is commented out, and the records returned in memory agree with the printed lines.",
 ["configurations","inputs","histories"],"all run settings over small grids of end times, intervals, step counts, interval counts, state-output frequencies and initial times, for trajectories that step adaptively and for ones that only advance",
 "Existing tests run a single harmonic oscillator with one or two settings and compare final physics, never the schedule; the interplay of modes, precedence, cut-short intervals and repeated runs is not exercised.",
 [U+"Trajectory.h",U+"Trajectory.cc",U+"Simulated_.h",U+"CommentingStream.h",U+"StochasticTrajectory.h"],
 [("run loop and mode dispatcher",U+"Trajectory.h: cppqedutils::run, trajectory::run"),("advance by an exact interval",U+"Trajectory.h: advance"),("comment filter",U+"CommentingStream.h")],
 ["lines of the trajectory output file or standard output","the list returned by the run","trajectory time after the run"])

prop("C02","An interrupted and continued run is indistinguishable from an uninterrupted one",
 "For every trajectory kind and every scheduled instant at which a file-backed run may be stopped, continuing it from its saved state reproduces bit for bit the state, the remaining printed data lines and all later random choices of the run that was never stopped, without repeating the line of the instant it continues from. "
 "Saved state records appear at every requested streaming count (plus the initial one if asked for) and always exactly once for the final state; a run started from another run's saved state as initial condition also starts from exactly that state.",
 ["histories","configurations","crash_points"],"all ways to cut a schedule into consecutive runs, all state-output frequencies, every trajectory kind (deterministic ODE with either integrator, master equation, single stochastic trajectory, ensemble) with all outcomes of the random generator on a finite grid",
 "No test that runs here writes or reads a state file at all; the resume logic depends on where in the schedule the run was cut and on which internal quantities are archived.",
 [U+"Trajectory.h",U+"Trajectory.cc",U+"ODE.h",U+"Simulated_.h",U+"StochasticTrajectory.h",U+"Random.h",C+"quantumtrajectory/MCWF_Trajectory.h",C+"quantumtrajectory/Master.h",C+"quantumtrajectory/MCWF_TrajectoryLogger.h"],
 [("continuation detection and state input",U+"Trajectory.h: trajectory::run"),("state archiving of each trajectory kind","stateIO members"),("random engine serialization",U+"Random.h")],
 ["state file records","trajectory output file","trajectory state, time, time step and log after continuing"])

prop("C03","A torn or foreign state file is never silently taken for a valid state",
 "Whatever prefix of a state file survives a crash, compressed or not, starting a run from it either restores exactly the last snapshot that is complete in it or fails with an error; it never continues from partially read data. "
 "A state record of a different trajectory kind, element type, rank, dimension or number of ensemble members is refused with an error, while a record containing only an array of the right type and shape is accepted as an initial condition at the time the trajectory already has.",
 ["crash_points","fault_sequences","histories"],"every truncation point (byte granularity) of state files holding one to several records, written in one go or appended by several runs, in both file formats; every ordered pair of trajectory kinds and of dimensions as writer and reader; every array of up to four axes given to every kind",
 "Tests never truncate a file nor mix trajectory kinds; the number of crash points is the number of bytes written.",
 [U+"Trajectory.h",U+"Trajectory.cc",U+"Archive.h",U+"Simulated.h",C+"quantumtrajectory/Master.h",C+"quantumtrajectory/MCWF_Trajectory.h"],
 [("length-prefixed records",U+"Trajectory.h: readViaSStream, writeViaSStream"),("metadata comparison",U+"Trajectory.h: ReadState"),("format detection",U+"Trajectory.cc: openStateFileReading/Writing")],
 ["exception or restored state when a run starts from the file"])

prop("C04","Automatic stopping fires exactly when the output has settled",
 "With automatic stopping set to a given repetition count, a run stops at the first streamed line that agrees, in every column and within the given relative precision (values below the absolute precision being treated as equal to it), with the moving average of exactly that many preceding lines, not counting the very first line of the run; with a zero repetition count it never stops early. "
 "When it stops, the final state is saved, the stop is reported in a comment, and no further data line is printed.",
 ["histories","inputs"],"all sequences of streamed values over a small alphabet up to a bounded length, all repetition counts, precisions and one- and two-column outputs",
 "The criterion depends on the whole history of streamed values; no test enables it.",
 [U+"Trajectory.h"],[("moving average queue",U+"Trajectory.h: AutostopHandlerGeneric"),("stop handling in the run",U+"Trajectory.h: trajectory::run")],
 ["number of lines printed before the stop","state file and comment after the stop"])

prop("C05","Adaptive stepping lands exactly on the requested time and honours the precision",
 "For every sequence of step requests, positive or negative, one step never goes beyond the requested interval, never goes in the wrong direction, advances the time by exactly the step size it reports, and reaches a requested instant exactly in finitely many steps; an unusually tiny request leaves the step size proposed for later unaffected. "
 "The relative precision acts relatively and the absolute precision absolutely (scaling the problem with zero absolute precision scales the solution and leaves the steps unchanged), with the default integrator a step that fails the error test is retried smaller from the unchanged state, and the recorded counts of steps, failures and right-hand-side evaluations are the true ones. "
 "The solution so obtained is that of the differential equation to within the requested precision.",
 ["inputs","histories"],"all sequences of step requests up to a bounded length from a small alphabet of signed intervals, for several right-hand sides, precisions and state types, both integrator back-ends",
 "Tests integrate two fixed problems forward with default precision; step-size bookkeeping across arbitrary request sequences is not observed.",
 [U+"ODE.h",U+"ODE_GSL.h",U+"ArrayTraits.h",U+"Trajectory.h"],
 [("step-size management",U+"ODE.h: ode_engine::Base::step"),("controlled steppers",U+"ODE.h, ODE_GSL.h: MakeControlledErrorStepper")],
 ["time, reported step, proposed step and state after each request","log on end"])

prop("C06","Command lines set exactly the parameters they name",
 "For every sequence of command-line tokens, each recognised option assigns exactly its parsed value to exactly the parameter of that name (prefix and module suffix included), later occurrences override earlier ones, switches and their negated forms stay complementary, and all other parameters keep their defaults. "
 "Unknown options, values that do not parse and missing values are reported instead of being ignored or shifting the remaining tokens, registering a name twice is refused, and the recorded command line and printed parameter list show the values actually in force.",
 ["inputs","histories"],"all token sequences up to a bounded length over an alphabet containing valid, negated, misspelt, malformed and truncated options of all parameter types in use",
 "No test here parses any command line.",
 [U+"Pars.h",U+"Pars.cc",U+"BooleanNegatedProxy.h",U+"BooleanNegatedProxy.cc",C+"quantumtrajectory/EvolutionMethod.cc",C+"high/QM_Picture.cc",E+"utils/ModeFunction.cc"],
 [("table lookup and update",U+"Pars.cc"),("typed values",U+"Pars.h"),("enumeration parsing",C+"high/QM_Picture.cc, "+C+"quantumtrajectory/EvolutionMethod.cc, "+E+"utils/ModeFunction.cc")],
 ["parameter values after parsing","exceptions or exit","printed list and recorded command line"])

prop("C07","Slicing visits every subsystem slice once, in place",
 "Iterating over the slices of an array along any ordered choice of retained axes visits each combination of the remaining indices exactly once, and each slice is a view whose element at a multi-index in the given axis order is the very element of the array at the corresponding full index, so that writing to it changes exactly that element. "
 "The same holds for row-wise iteration over matrices reinterpreted as vectors and for any memory layout of the array.",
 ["inputs","configurations"],"all arrays of rank 1 to 5 (and 6) with small unequal extents, all ordered subsets of axes, all memory orderings including reversed and transposed storage",
 "Tests use a handful of axis choices on one or two arrays; the index arithmetic is per-permutation.",
 [U+"SliceIterator.h",U+"SliceIterator.tcc",U+"VectorFromMatrixSliceIterator.h",U+"MultiIndexIterator.h",U+"BlitzArrayExtensions.h"],
 [("transposition and filtering of indices",U+"SliceIterator.h/.tcc"),("multi-index stepping",U+"MultiIndexIterator.h")],
 ["addresses and values of slice elements"])

prop("C08","Index sets are enumerated completely, once and in order",
 "A multi-index range between any two corners yields every index vector of the box exactly once in lexicographic order, its begin and end positions compare correctly, and advancing past the end is recognised; the table of combinations of any number of objects with repetition contains every combination exactly once, and looking up a combination returns its position, while anything that is not in the table is reported as such. ",
 ["inputs"],"all boxes of rank 1 to 5 with small extents and nonzero lower corners; all combination tables with up to 6 kinds and 6 picks",
 "Tests iterate one box and one combination table.",
 [U+"MultiIndexIterator.h",U+"Combinatorics.h"],[("odometer increment",U+"MultiIndexIterator.h"),("recursive table construction",U+"Combinatorics.h")],
 ["sequence of indices yielded","lookup results"])

prop("C09","State vectors and density operators obey their linear algebra",
 "For all ranks and dimensions, copying is deep, assignment (between equal dimensions) and arithmetic act on the values, the direct product multiplies amplitudes with the index order of its factors, the norm and the trace are those of the vector and matrix, renormalisation divides by exactly the returned norm, and a dyad or projector of state vectors has the product amplitudes with the second factor conjugated. "
 "Adding a state's projector to a density operator, building one from a state vector, and element access to diagonals and coherences through the common read-only interface agree between the two representations.",
 ["inputs","histories"],"all operation sequences up to a bounded depth over state vectors and density operators of ranks 1 to 4 with small unequal dimensions",
 "Tests use a few random states and compare only derived quantities.",
 [C+"quantumdata/StateVector.h",C+"quantumdata/DensityOperator.h",C+"quantumdata/ArrayBase.h",C+"quantumdata/DimensionsBookkeeper.h",C+"quantumdata/LazyDensityOperator.h",U+"ComplexArrayExtensions.h",U+"BlitzArrayExtensions.h"],
 [("deep copy and arithmetic",C+"quantumdata/ArrayBase.h"),("outer products",U+"ComplexArrayExtensions.h: doDirect"),("common interface",C+"quantumdata/LazyDensityOperator.h")],
 ["amplitudes and matrix elements after each operation"])

prop("C10","Reduced states and partial traces are exact for every choice of subsystems",
 "For every state vector or density operator and every ordered subset of its subsystems, the partial trace evaluated through the slicing interface equals the exact reduced density matrix with indices in the requested order, is Hermitian with the same trace, and composes (tracing in two stages equals tracing at once). "
 "The flattened real representation of a state lists all diagonal and, if requested, real and imaginary off-diagonal elements exactly once in a fixed order and is inverted exactly by its reader.",
 ["inputs","configurations"],"ranks 1 to 4 with small unequal dimensions, all ordered subsets of subsystems, operator bases as inputs (linearity makes a basis decisive)",
 "Tests check one purity figure of one partial trace.",
 [C+"quantumdata/LazyDensityOperator.h",C+"quantumdata/DensityOperator.h",C+"quantumdata/StateVector.h",U+"SliceIterator.h"],
 [("partial trace over slices",C+"quantumdata/LazyDensityOperator.h: partialTrace"),("flattening",C+"quantumdata/DensityOperator.h: deflate, inflate")],
 ["matrix elements of the reduced operators"])

prop("C11","Entropy, purity, negativity and mutual information take their defining values",
 "For every density operator and every bipartition, the negativity of the partial transpose is minus the sum of its negative eigenvalues, the entropy and purity are those of its spectrum, and the mutual information is the sum of the partial entropies minus the total; they are invariant under local basis changes and reordering of the subsystem list, and vanish on product states where they must. ",
 ["inputs","configurations"],"ranks 2 to 4, all bipartitions, finite families of pure, product, maximally entangled, Werner-type and generic mixed states, all local permutation/phase basis changes",
 "Tests evaluate each measure on one family and one bipartition.",
 [C+"quantumdata/EntanglementMeasures.h",U+"CMatrix.cc",U+"CMatrix.h",C+"quantumdata/DensityOperator.h",C+"quantumtrajectory/DensityOperatorStreamer.h"],
 [("partial transpose",C+"quantumdata/EntanglementMeasures.h: negPT"),("eigenvalue routines",C+"quantumdata/EntanglementMeasures.h, "+U+"CMatrix.cc")],
 ["returned scalars"])

prop("C12","Momentum-position transforms are unitary and consistent on every axis",
 "The Fourier transform of a state along any set of its axes is the discrete transform with the framework's momentum ordering on exactly those axes, forward and backward transforms are inverse to each other and preserve norm and trace, and transforming a state vector before forming its density operator equals transforming the density operator. ",
 ["inputs","configurations"],"all axis subsets for ranks 1 to 3, all power-of-two dimensions up to 16, all basis states and basis operators, both directions",
 "One test transforms one random state on one axis choice.",
 [C+"quantumdata/LazyDensityOperatorFFT.h",C+"quantumdata/LazyDensityOperatorFFT.cc",U+"FFT.cc",U+"FFT.tcc",U+"FFT.h"],
 [("axis-wise transform",C+"quantumdata/LazyDensityOperatorFFT.h"),("reordering of momenta",C+"quantumdata/LazyDensityOperatorFFT.cc")],
 ["amplitudes after transformation"])

prop("C13","Structured operators behave as the matrices they stand for",
 "Every expression built from band operators and transition operators (sums, differences, scalar multiples, products of transition operators, direct (tensor) products with and without each other, Hermitian conjugates) acts on state vectors exactly as the corresponding dense matrix expression. "
 "In an interaction picture every operator entry acquires at each time exactly the phase given by the frequencies of its subsystems, whatever the order of earlier evaluations; operators whose dimensions or band structures do not fit are rejected and never silently combined.",
 ["programs","inputs","histories"],"all operator expressions up to a bounded depth over generators with all small band offsets and dimensions, ranks 1 to 3, acting on all basis vectors, all time sequences from a small alphabet",
 "Tests never compare operator expressions to matrices.",
 [C+"quantumoperator/Tridiagonal.h",C+"quantumoperator/Tridiagonal.tcc",C+"quantumoperator/Tridiagonal.cc",C+"quantumoperator/TridiagonalHamiltonian.h",C+"quantumoperator/Sigma.h",C+"quantumoperator/Sigma.cc"],
 [("band storage, product and application",C+"quantumoperator/Tridiagonal.tcc"),("time-dependent phases",C+"quantumoperator/Tridiagonal.tcc: propagate"),("transition operators",C+"quantumoperator/Sigma.h")],
 ["action on basis state vectors","exceptions"])

prop("C14","A composed system is the sum of its parts acting on their own subsystems",
 "For every composition of free systems and interactions, the Hamiltonian, exact propagator, jump rates, jump operators and their superoperators of the whole equal those of the parts embedded at the subsystems they were assigned to, in the assigned order; jump channels, averages and their printed keys are numbered consecutively (first all free systems, then all interactions) so that the channel or column with a given number always belongs to the same part. "
 "Parts that lack a feature contribute nothing and shift no index, assignments that put different parts at the same place are refused, and the dimension, highest frequency and unitarity of the whole follow from those of the parts.",
 ["configurations","programs"],"all feature combinations (Hamiltonian, exact, dissipative, averaged, present or absent) of two- and three-part systems and interactions, all ordered assignments of interactions to subsystems, all channels and basis states",
 "Tests only check that certain malformed compositions fail to compile.",
 [C+"composites/BinarySystem.cc",C+"composites/BinarySystem.h",C+"composites/Composite.h",C+"composites/Composite.tcc",C+"composites/Act.h",C+"composites/SubSystem.h",C+"structure/Structure.h"],
 [("dispatch with channel offsets",C+"composites/BinarySystem.cc, "+C+"composites/Composite.tcc"),("slice-wise embedding",U+"SliceIterator.h")],
 ["contribution to the derivative, propagated states, rates, jumped states, averages and key of the composed system"])

prop("C15","A quantum-jump step follows the Monte Carlo wave-function rules for every draw",
 "For every system, state and random draw, one step of a stochastic trajectory evolves the state coherently, renormalises it and then performs jump number k exactly when the draw divided by the step falls into the k-th interval of the cumulative rates, giving the normalised jump image of the state, or no jump if it falls beyond the last; exactly one random number is used per completed step of a system with jumps and the state stays normalised. "
 "If the total jump probability of a step exceeds the tolerated limit the step is undone completely (state, time, phases) and retried shorter, the next step proposed never exceeds the limit over the total rate, and the logged numbers of steps, jumps, retries and overshoots are the true ones.",
 ["schedules","inputs","histories"],"all sequences of random draws from a grid hitting every interval of the cumulative rates, over several steps, for systems with and without Hamiltonian, exact propagator and specially computed rates, all small limits and tolerances",
 "Nothing that includes the stochastic trajectories is even compiled by the tests here, and jump outcomes depend on the draw sequence.",
 [C+"quantumtrajectory/MCWF_Trajectory.h",C+"quantumtrajectory/MCWF_TrajectoryLogger.cc",C+"quantumtrajectory/MCWF_TrajectoryLogger.h",U+"Random.h",U+"ODE.h"],
 [("jump selection",C+"quantumtrajectory/MCWF_Trajectory.h: performJump"),("step-size management",C+"quantumtrajectory/MCWF_Trajectory.h: manageTimeStep")],
 ["state vector, time, proposed step and log after each step"])

prop("C16","An ensemble is the exact average of its independent members",
 "An ensemble of trajectories holds the requested number of members, each started from the same state with its own stream of random numbers, advances every member to the same instant, and its reported state is the arithmetic mean of the members' projectors (so Hermitian, positive, of unit trace), independent of how often it is queried. "
 "Each member evolves exactly as the single trajectory with that seed and stream would.",
 ["schedules","histories"],"ensembles of one to four members, all draw grids per member stream, all query/advance interleavings up to a bounded length",
 "Not compiled by the tests here.",
 [U+"StochasticTrajectory.h",C+"quantumtrajectory/MCWF_Trajectory.h",U+"Random.h",C+"quantumtrajectory/DensityOperatorStreamer.h"],
 [("averaging",C+"quantumtrajectory/MCWF_Trajectory.h: AverageTrajectories"),("stream allocation",C+"quantumtrajectory/MCWF_Trajectory.h: makeEnsemble, "+U+"Random.h")],
 ["averaged density operator","member states"])

prop("C17","The master equation evolves the density operator by exactly its Lindblad form",
 "For every system, in every picture, the evolved density operator obeys the Lindblad equation given by the system's Hamiltonian, propagator and jump operators: it stays Hermitian and of unit trace, and agrees with the exponential of the corresponding dense generator within integration accuracy, whether or not the system provides a direct form of the jump term. "
 "Systems with a non-unitary exact propagator and states of the wrong dimension are refused, and density operator and averaged single trajectories agree in the limit of no noise.",
 ["inputs","configurations","histories"],"systems built from all feature combinations on one and two subsystems of small dimensions, all basis density operators, several times and step subdivisions",
 "Tests here never evolve a density operator.",
 [C+"quantumtrajectory/Master.h",C+"structure/Liouvillean.h",C+"structure/Exact.h",C+"structure/ElementLiouvillean.h",U+"VectorFromMatrixSliceIterator.h",U+"ComplexArrayExtensions.h"],
 [("derivative assembly",C+"quantumtrajectory/Master.h"),("two-sided application of exact propagator",C+"quantumtrajectory/Master.h"),("smoothing",C+"quantumtrajectory/Master.h")],
 ["density operator after evolving"])

prop("C18","Each free element implements its textbook Hamiltonian and jump operators",
 "For every parameter set and cutoff, a driven and damped oscillator mode, two-level system, spin and multi-level atom generate exactly the matrices of their defining Hamiltonian (detuning, drive, decay) and jump operators; each jump rate equals the squared norm of the jumped state and each direct superoperator, phase diffusion included, equals the jump operator applied from both sides. "
 "Initial-state constructors return the named normalised states and refuse those that do not fit the dimension.",
 ["inputs","configurations"],"grids of real and complex parameters including zero and sign changes, dimensions 2 to 8, all basis states, all element variants (pictures, with or without drive, decay, temperature, dephasing)",
 "Tests contain no element at all.",
 [E+"frees/Mode.cc",E+"frees/Mode_.h",E+"frees/Qbit.cc",E+"frees/Qbit_.h",E+"frees/Spin.cc",E+"frees/MultiLevel.h",C+"structure/ElementLiouvillean.h",C+"structure/FreeExact.h"],
 [("Hamiltonian assembly",E+"frees/*.cc"),("jump operators, rates, superoperators",E+"frees/*.cc, "+C+"structure/ElementLiouvillean.h")],
 ["derivative contributions, propagated and jumped basis states, rates"])

prop("C19","All pictures of an element describe the same physical evolution",
 "For every element offering several pictures and every parameter set, the Schroedinger picture, the interaction picture and the unitary interaction picture give the same state after the same time, from whatever instant the pictures last coincided; the exact propagators form a one-parameter group starting with the identity, in any order of calls, on fresh and on used objects. "
 "The unitary picture's propagator is unitary, the master equation accepts a picture only if the jumps act the same in it, and the factory that selects the element by picture and nonzero parameters returns one with exactly the requested features.",
 ["configurations","histories","inputs"],"all pictures times parameter grids with each of detuning, decay, drive, nonlinearity and temperature zero or nonzero, all call sequences of propagator times up to a bounded length",
 "Tests contain no element at all.",
 [E+"frees/Mode.cc",E+"frees/Qbit.cc",E+"frees/Spin.cc",E+"frees/Particle.cc",C+"structure/FreeExact.h",C+"structure/TimeDependence.h",C+"quantumoperator/TridiagonalHamiltonian.h"],
 [("cached diagonal propagator",C+"structure/FreeExact.h"),("picture-dependent Hamiltonians",E+"frees/*.cc"),("factory",E+"frees/Mode.tcc, "+E+"frees/Qbit.cc")],
 ["state after evolving in each picture"])

prop("C20","Moving particles have the right kinetics, potentials and moments",
 "For every spatial resolution, recoil frequency and mode function, a particle's kinetic energy is the recoil frequency times squared momentum, its optical potentials act in momentum space as exactly the shift operators of the chosen mode function, mode-function names and products translate to the right sums of such shifts, and printed moments are the true mean and spread of momentum and position. "
 "Wave-packet initial states are normalised with the requested centre and width, and momentum and position grids are conjugate.",
 ["inputs","configurations"],"resolutions 2^2 to 2^6, all mode-function types and small wave numbers of either sign, basis states and wave packets on a grid of centres and widths",
 "Tests contain no particle.",
 [E+"frees/Particle.cc",E+"frees/Particle_.h",E+"utils/ModeFunction.cc",E+"utils/ModeFunction.h",E+"utils/ParticleInitialCondition.h"],
 [("momentum shift operators",E+"frees/Particle.cc: expINKX, cosNKX, mfNKX"),("mode-function composition",E+"frees/Particle.cc: mfComposition")],
 ["derivative contributions, averages, initial amplitudes"])

prop("C21","Each interaction element couples its subsystems by its textbook Hamiltonian",
 "For every coupling strength, mode function, dimension and picture of the partners, each interaction element (two-level or multi-level atom with mode, coupled modes, collective spin with mode, particle with one or two modes) adds to the derivative exactly its defining Hamiltonian in the picture defined by its partners (position couplings of modes use X=(a+a†)/√2; couplings of a particle to fields of different wave numbers follow the mode functions up to the momentum cutoff), and is anti-Hermitian as a generator for real couplings. "
 "Its exact parts, where present, keep this form at every time.",
 ["inputs","configurations","histories"],"coupling grids including zero, negative and complex values, small unequal dimensions, all partner pictures, all basis states, several evaluation times in all orders",
 "Tests contain no interaction.",
 [E+"interactions/JaynesCummings.cc",E+"interactions/JaynesCummings_.h",E+"interactions/CoupledModes.cc",E+"interactions/GeneralDicke.cc",E+"interactions/MLJC.h",E+"interactions/ParticleCavity.cc",E+"interactions/ParticleTwoModes.cc"],
 [("tensor-product Hamiltonians with picture-dependent phases",E+"interactions/*.cc")],
 ["derivative contributions on basis states"])

prop("C22","Printed expectation values are the true ones, one column per key",
 "For every element and composed system and every pure or mixed state, each printed quantity equals the defined expectation value or moment of that state (pure state and its density operator give the same numbers), derived columns such as variances are computed from their own raw moments only, and the number and order of values equals that of the numbered key, which numbers columns consecutively after time and time step. ",
 ["inputs","configurations"],"all averaging elements and utilities with dimensions 2 to 6, all basis operators plus generic states, all option combinations, stand-alone and inside composed systems",
 "Tests print nothing from any element.",
 [C+"structure/ElementAveraged.h",C+"structure/ElementAveraged.cc",C+"structure/Averaged.h",E+"utils/AveragingUtils.h",E+"frees/Mode.cc",E+"frees/Qbit.cc",E+"frees/Spin.cc",E+"interactions/ModeCorrelations.cc",E+"interactions/QbitModeCorrelations.cc",U+"KeyPrinter.cc",C+"quantumtrajectory/DensityOperatorStreamer.h"],
 [("raw averages and processing",C+"structure/Averaged.h"),("key printing",U+"KeyPrinter.cc")],
 ["columns and key of the output"])

prop("C23","The evolution driver runs the requested method on the given system and state",
 "For every evolution method, initial-state kind and option set, the top-level driver evolves the given state by that method only: single stochastic, ensemble or master equation, each reporting the averages of its own state at the scheduled instants, with entanglement columns exactly when requested. "
 "The combinations that make no sense (stochastic methods from a density operator) are refused, density-operator evolution never uses a non-unitary picture, and, without jumps, all methods print the same averages within integration accuracy.",
 ["configurations","inputs"],"all combinations of method, initial-state kind, picture, entanglement options, run mode on small one- and two-part systems",
 "Not compiled by the tests here.",
 [C+"quantumtrajectory/Evolution_.h",C+"high/Evolution.h",C+"high/EvolutionBinary.h",C+"high/QM_Picture.cc",C+"quantumtrajectory/EvolutionMethod.cc",C+"quantumtrajectory/DensityOperatorStreamer.h"],
 [("dispatch on method",C+"quantumtrajectory/Evolution_.h"),("picture adjustment",C+"high/QM_Picture.cc")],
 ["returned and printed averages","exceptions"])

prop("C24","Random engines resume their sequence exactly from a saved state",
 "For every supported random engine, saving its state at any point of its sequence and loading it into any other instance makes both produce the same numbers from there on, saving does not disturb the sequence, equal seeds give equal sequences, and array filling draws each element once in order. ",
 ["histories","crash_points"],"all positions up to a bound, all interleavings of draw, save, load, re-seed up to a bounded depth on two engine instances",
 "Not compiled by the tests here.",
 [U+"Random.h",U+"Random.cc"],[("text and binary state serialization",U+"Random.h, Random.cc")],
 ["numbers drawn after loading"])

prop("C25","Phase-space functions and number formatting report the state faithfully",
 "The Q and Wigner functions of any oscillator state equal their definitions at every phase-space point and agree between the state vector and its density operator; printed numbers carry the requested number of significant digits, read back within that precision, and columns stay separated whatever the magnitude or sign of the values. ",
 ["inputs"],"cutoffs 1 to 8, all basis operators, grids of phase-space points; all precisions from 0 to 17 on grids of magnitudes and signs, real and complex",
 "No test evaluates a phase-space function or checks formatting.",
 [C+"quantumdata/DistributionFunctions.h",C+"quantumdata/DistributionFunctions.cc",U+"FormDouble.h",U+"FormDouble.cc",U+"MathExtensions.cc"],
 [("series summation",C+"quantumdata/DistributionFunctions.cc"),("padding and precision",U+"FormDouble.cc")],
 ["returned values","formatted text"])

prop("C26","What a run logs about itself is true and never pollutes the data",
 "Everything a run prints besides its data is commented out, whatever is written, in whatever pieces and however interleaved with the data; the log level changes only the log, never the data; at each level exactly the documented events (jumps, retried steps, overshoots, failed ODE tries) are reported with their true values, and the header and the summaries, histograms and averages at the end of a trajectory or an ensemble match what happened. ",
 ["inputs","histories"],"texts of up to 6 characters in all partitions, all interleavings of two comment streams with the data, log levels -1 to 5, all sequences of up to 4 steps with all jump decisions, all event histories of up to 3 members, header for every combination of features",
 "The tests compare data files with comments stripped, so neither stray log lines at other levels nor wrong summaries are seen.",
 [U+"CommentingStream.h",U+"ODE.h",U+"Trajectory.h",C+"quantumtrajectory/MCWF_TrajectoryLogger.h",C+"quantumtrajectory/MCWF_TrajectoryLogger.cc",C+"quantumtrajectory/MCWF_Trajectory.h",C+"quantumtrajectory/Master.h",C+"structure/DynamicsBase.cc"],
 [("commenting",U+"CommentingStream.h"),("reports of events and summaries",C+"quantumtrajectory/MCWF_TrajectoryLogger.cc"),("header",C+"quantumtrajectory/MCWF_Trajectory.h")],
 ["text of log, header and summary"])

prop("C27","Matrices of Hamiltonians, matrix systems and driven oscillators are exact",
 "The matrix computed from any Hamiltonian, at any instants and for any dimensions, has as its columns the action of that Hamiltonian on the basis states; a system constructed from such a matrix evolves and is monitored exactly as the system the matrix came from; and the closed-form amplitude and velocity of the driven damped oscillator fulfil the equation of motion and the initial conditions in the over-, under- and critically damped regimes at every instant. ",
 ["inputs"],"ranks 1 to 4 with total dimension up to 24, all feature sets, Hermitian, non-Hermitian, diagonal and time-dependent Hamiltonians, qbit-mode systems over a grid of parameters; 11 dampings x 7 driving frequencies x 4 initial instants x 9 initial conditions x 8 instants",
 "One test solves one driven oscillator; no test computes the matrix of a Hamiltonian.",
 [C+"structure/MatrixOfHamiltonian.h","CPPQEDelements/frees/TimeIndependentMatrixHamiltonian.h",U+"DrivenDampedHarmonicOscillator.h",U+"DrivenDampedHarmonicOscillator.cc"],
 [("columns from the action",C+"structure/MatrixOfHamiltonian.h"),("damping regimes",U+"DrivenDampedHarmonicOscillator.cc")],
 ["matrix elements","amplitudes","averages and final states"])

prop("C28","Containers written as text or archived are read back; damaged text is refused",
 "Every container, pair, tuple or nesting of these that can be written as text is read back from that text with the same values, with white space allowed around its brackets and separators and with reading stopping exactly at its end, so that several can follow each other; text with a missing, foreign or truncated bracket, separator or element puts the stream in a failed state; tuples survive archiving; and fuzzy comparison of numbers is consistent: exactly one of smaller, equal, greater, in agreement with all derived operators. ",
 ["inputs"],"12 container shapes with all value sequences of length up to 3 over an alphabet of 4-5 values, each text with every single insertion, deletion, replacement, truncation; all pairs of 141 numbers",
 "One test reads one text; no damaged text is ever read.",
 [U+"ContainerIO.h",U+"FuzzyDouble.h",U+"FuzzyDouble.cc"],
 [("delimiters",U+"ContainerIO.h"),("tolerance",U+"FuzzyDouble.cc")],
 ["text","values read","state of the stream"])

prop("C29","Shipped programs simulate the system their command line describes",
 "Each program shipped in CPPQEDscripts (modes, homodyned modes, two-level and three-level atoms, spins, particles, Jaynes-Cummings, cavity Raman, optomechanics, particle-cavity, ring cavity, several particles, and the classical counterparts) prints, at every instant, the expectation values (and negativity) of the system that its options define - detunings, drives, couplings, losses, temperatures, nonlinearities, mode functions and initial conditions, signs and phases included - whatever the quantum-mechanical picture and the method (master equation, or single trajectory with the noise switched off, which then makes no jumps); configurations that make no sense are refused with a failure status and no data. ",
 ["inputs"],"24 programs, grids over all their physical options (zero, nonzero, both signs, complex phases), all pictures, master equation and noiseless trajectory, three to four output instants, total dimension up to 32",
 "The repository's runs of these programs are compared with stored or mutually produced data for one option set each, and only in a setting that is not part of the stable tests.",
 ["CPPQEDscripts/",C+"high/Evolution_.h",C+"quantumtrajectory/MCWF_Trajectory.h",C+"quantumtrajectory/Master.h","CPPQEDelements/frees/","CPPQEDelements/interactions/"],
 [("which elements are put together","CPPQEDscripts/1particle1mode.cc"),("picture of the elements","CPPQEDelements/frees/Mode.tcc"),("classical equations","CPPQEDscripts/QbitMode_Evolved.cc")],
 ["standard output","exit status"])

prop("C30","Python reads and writes state files without loss",
 "Every real or complex array of rank 1 up to the supported maximum that Python writes together with a time, whatever its memory layout, is read back with the same shape, element type, values and time, replaces what the file contained before, and serves as initial condition of a trajectory of that element type and shape, at the time the trajectory already has. "
 "Reading the state file of a run (a simulated equation, a single trajectory or a master equation; compressed or not, continued or not) returns all saved states in order, each with its values, shape and time, and the rank and kind of the trajectory. Arrays that cannot be represented are refused and leave an existing file untouched; a missing, torn or corrupt file raises an error and never yields partially read states.",
 ["inputs","crash_points","histories"],"all shapes of up to four axes with extents 1 to 4 and selected ones up to 15 axes, both element types, all of C, Fortran, strided, reversed, inner and transposed layouts; all sequences of three writes; every byte of the state files of every kind of run as crash point",
 "The Python module is not exercised by any test.",
 ["cpypyqed/io.cc","cpypyqed/blitz2numpy.h",U+"Trajectory.h",U+"Trajectory.cc",U+"BlitzArray.h"],
 [("conversion of arrays","cpypyqed/blitz2numpy.h"),("reading and writing","cpypyqed/io.cc: doRead, doWrite, read, write")],
 ["values returned by read","file written by write","state a run starts from"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P:
        p["statement"]=p["statement"].strip()
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
