"""Registry: property -> harness sources, layers of /repo compiled in, what a scenario is (rule), bounds and assumptions."""
CHECKS={}
def c(prop,harness,layers,rule,level="model_checking",**kw):
    CHECKS[prop]=dict(harness=harness,layers=layers,rule=rule,level=level,**kw)
PCG="the PCG engine (git submodule, absent offline) is replaced by a scripted stand-in so that the harness owns every random draw"
LIN="maps that are linear are enumerated on a complete basis at each dimension, plus generic vectors against accidental cancellation"
FP="floating-point results are compared with the stated tolerances"
c("C01",["c01.cc"],["U"],"scenario = run settings x step script, or a history of several runs; every setting of end time, interval, interval count, step count, header, state frequency, start time from small grids, all step scripts up to a length; non-trivial if at least one adaptive step was executed",min_scenarios=3000,
  assumptions=["step sizes of the scripted trajectories are dyadic so that the schedule model is exact; a separate section uses non-dyadic intervals with a tolerance"])
c("C02",["c02_run.cc","c02_q.cc"],["U","C","E"],"scenario = trajectory kind x schedule x state-output frequency x draw sequence; within it every instant of the schedule is used as interruption point and the continued run compared bit for bit with the uninterrupted one",min_scenarios=100,assumptions=[PCG])
c("C03",["c03.cc"],["U","C"],"scenario = state file (kind, compressed or not, number of records and of appending runs) x block of truncation points, every byte being one crash point; plus every ordered pair of writer and reader kind and every array-only initial condition",min_scenarios=100,assumptions=["a crash leaves a prefix of the file (no reordering of blocks by the file system)",PCG])
c("C04",["c04.cc"],["U"],"scenario = sequence of printed lines over a value alphabet x repetition count x precision x streaming mode x state frequency; all sequences up to the length bound",min_scenarios=100)
c("C05",["c05.cc"],["U"],"scenario = engine x equation x precision x sequence of step requests over an alphabet of signed, tiny and huge intervals; all sequences up to the length bound; every right-hand-side evaluation recorded",min_scenarios=100,
  assumptions=["error-test retries are visible only in the default (Boost) engine; the GSL engine accepts each step and adapts the next",FP])
c("C06",["c06.cc","c06_q.cc"],["U","C","E"],"scenario = token sequence (all sequences over an alphabet of valid, negated, misspelt, malformed and truncated options up to the length bound), and for every parameter bundle every option alone and every ordered pair of options",min_scenarios=100)
c("C07",["c07.cc","c07_1.cc","c07_2.cc"],["U"],"scenario = array shape x memory layout x ordered choice of retained axes (all of them, ranks 1 to 5); every slice element is identified by address",min_scenarios=100)
c("C08",["c08.cc"],["U"],"scenario = box between two corners (all small corners, ranks 1 to 4; 5 in thorough) or a table of combinations; every index visited and looked up",min_scenarios=100)
c("C09",["c09.cc"],["U"],"scenario = dimensions x sequence of operations (all sequences up to the depth bound) on a small heap of state vectors and density operators, compared with dense vectors and matrices after every operation",min_scenarios=100,assumptions=[FP,"assignment is between objects of equal dimensions, as documented by the arrays it forwards to"])
c("C10",["c10.cc"],["U"],"scenario = dimensions x ordered subset of subsystems x basis operator or generic state",min_scenarios=100,assumptions=[LIN,FP])
c("C11",["c11.cc"],["U"],"scenario = dimensions x ordered subset (bipartition) x member of a finite family of states x local basis change",min_scenarios=100,assumptions=[FP])
c("C12",["c12.cc"],["U","C"],"scenario = dimensions x set of axes x direction x basis state or basis operator",min_scenarios=100,assumptions=[LIN,FP])
c("C13",["c13.cc"],["U","C"],"scenario = operator expression (all expressions to the depth bound over generators with all small offsets) x sequence of evaluation times; every expression is applied to every basis vector",min_scenarios=100,assumptions=[LIN,FP])
c("C14",["c14.cc","c14_1.cc","c14_2.cc","c14_3.cc","c14_4.cc"],["U","C"],"scenario = composition (layout of interactions over 2 to 4 parts) x feature mask of every part x numbers of jumps and averages; the embedded dense model is compared for Hamiltonian, propagator, jumps, rates, superoperators, averages, key and bookkeeping",min_scenarios=5000,assumptions=[LIN,FP])
c("C15",["c15.cc"],["U","C"],"scenario = feature set x limit x tolerance x engine behaviour (scripted adaptive steps) x sequence of random draws; all sequences over a grid hitting every rate interval",min_scenarios=1000,assumptions=[PCG,FP])
c("C16",["c16.cc"],["U","C"],"scenario = number of members x draws of each member x sequence of advances and queries, against independently modelled members",min_scenarios=100,assumptions=[PCG,FP])
c("C17",["c17.cc"],["U","C"],"scenario = feature set x dimensions x basis density operator x step subdivision, in lockstep with the dense Lindblad form; whole evolutions against dense integration; refusals",min_scenarios=100,assumptions=[LIN,FP])
c("C18",["c18.cc"],["U","C","E"],"scenario = element variant x parameter combination (each parameter zero, positive, negative or complex) x dimension; generator, jumps, rates and superoperators are rebuilt on all basis states and compared with textbook matrices; all initial-state constructors",min_scenarios=500,assumptions=[LIN,FP])
c("C19",["c19.cc"],["U","C","E"],"scenario = element x parameter combination x picture, with every call history of propagator times up to the length bound and every restart instant; factories for every combination of zero and nonzero parameters",min_scenarios=1000,assumptions=[LIN,FP])
c("C20",["c20.cc"],["U","C","E"],"scenario = resolution x mode function x wave number x recoil frequency (x wave packet), compared with shift operators, conjugate grids and exact moments",min_scenarios=1000,assumptions=[LIN,FP,"wave packets narrow compared with the box, where the position moment is defined"])
c("C21",["c21.cc"],["U","C","E"],"scenario = interaction x coupling x partner pictures x dimensions x evaluation times, total generator against the textbook Hamiltonian on all basis states",min_scenarios=1000,assumptions=[LIN,FP,"fields of different wave numbers: exact up to the momentum cutoff, Hermitian everywhere"])
c("C22",["c22.cc"],["U","C","E"],"scenario = averaging class x dimensions x options x state (spanning set plus generic pure and mixed), alone, collected, cloned and embedded; columns against dense expectation values, key against the number and order of columns",min_scenarios=1000,assumptions=[LIN,FP])
c("C23",["c23.cc"],["U","C","E"],"scenario = feature set x method x initial-state kind x entanglement switch x run mode x output target, against dense integration and against members stepped one by one; jc with real elements in all pictures; all command-line combinations of method and picture",min_scenarios=1000,assumptions=[PCG,FP])
c("C24",["c24.cc"],["U"],"scenario = engine x archive x first two operations, containing all continuations over {draw, draw 313, save, load, re-seed} x 2 instances up to depth 6 (7 thorough); positions, torn texts, fillings, streams",min_scenarios=1000,
  assumptions=["PCG and Xoshiro (git submodules, absent offline) are replaced by stand-ins: for these the repository's serialization and stream selection are checked, not the generators","instances are distinct objects: copies of the GSL engine share their generator by design (shared_ptr)"])
c("C25",["c25.cc"],["U","C"],"scenario = dimension x state (Fock, all superpositions of two, coherent, generic) with all phase-space points of a grid and all truncations; precision x kind of format with all magnitudes and signs; all triples of columns",min_scenarios=300,
  assumptions=[FP,"normalisations are those of the code's documentation: W(0)=1/pi for the vacuum, Q=<alpha|rho|alpha>"])
c("C26",["c26.cc"],["U","C"],"scenario = text x partition into flushed pieces, interleaving of two comment streams and the data; log level x sequence of step requests and failed tries; log level x feature set x limits x sequence of jump decisions; history of logged events of up to three members x bins; whole runs at every log level",min_scenarios=1000,assumptions=[PCG,FP])
c("C27",["c27.cc"],["U","C","E"],"scenario = dimensions x feature set x kind of Hamiltonian, or parameters of a two-part system, every basis vector being one column; damping x driving x initial instant of the oscillator, with all initial conditions and instants of a grid",min_scenarios=300,assumptions=[LIN,FP,"the undamped oscillator driven exactly at resonance is excluded: its closed form has no bounded particular solution"])
c("C28",["c28.cc"],["U"],"scenario = value of a container type, whose text is damaged in every way of one insertion, deletion, replacement, or truncation; value in an archive; number compared with all numbers of a grid",min_scenarios=300,assumptions=[])
SCRIPTS="tutorialMode PumpedLossyMode_C++QED PumpedLossyMode_Evolved HomodynedMode PumpedLossyQbit PTLA_C++QED PTLA_Evolved PTLA_EvolvedHL Spin SingleParticle Raman QbitMode_Evolved Ring_Evolved tutorialBinary QbitMode_C++QED QbitMode_Matrix CavityRaman Optomechanics 1particle1mode Ring tutorialCompositeRing 2particles1mode tutorialCompositeMultiparticle FourModes".split()
c("C29",["c29.cc"],["U","C","E"],"scenario = shipped program x command line (grid over all physical options, pictures and methods), the program's own main run with it, the printed lines compared with dense integration of the system the options describe",min_scenarios=1000,programs=["CPPQEDscripts/%s.cc"%s for s in SCRIPTS],
  assumptions=[FP,"programs that do not compile in this environment are left out (Ca40InCavityWithPhonons, GeneralDickeImaginaryEvolution)","runs without noise or with the master equation: the stochastic branches are the subject of C15, C16, C23"])

c("C30",["c30.cc"],["U","C","P"],"scenario = array shape (all shapes up to the bound, ranks 1 to 15) x element type, with every memory layout and several instants; every sequence of three writes to one file; every kind of array that cannot be written; state file of a run (kind x state frequency x length x compression x continuation) and every byte of it as crash point; array written by Python x trajectory kind it starts",min_scenarios=500,
  flags=["-I"+__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"stubs_py"),"-I/usr/include/python3.12"],libs=["-lboost_python312","-lpython3.12"],
  assumptions=[PCG,"the binding of Boost.Python to numpy (compiled for another numpy version) is replaced by one written on numpy's Python interface; interpreter, arrays and the module under test are genuine"])
