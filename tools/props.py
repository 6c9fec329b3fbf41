"""The property table: properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md are generated from it (tools/gen.py)."""
P = []
def prop(id, title, statement, over, q, why, files, mech, tech, note, state=None, observe=None, design="", level="other"):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, tech=tech, note=note,
                  state=state, observe=observe, design=design, level=level))
def na(id, title, statement, over, q, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, na=reason))

R = "pairinteraction/"
G = "pairinteraction_gui/"

prop("C01", "The shared in-memory cache is safe under concurrent use",
     "Any number of threads may save, restore and clear entries of one cache at the same time without corrupting it: every access to the stored entries happens while the cache's lock is held, on every path and on exit by exception. A value once saved is what restore returns until the cache is cleared: saving a second time under the same key never replaces it but is reported as an error. No reference into the stored entries leaves the cache.",
     ["schedules", "histories"], "every interleaving of save/restore/clear calls from any number of threads, for every key and value type",
     "the tests start a handful of threads with disjoint keys once; a lost lock on one path shows up only under a rare interleaving",
     [R + "Cache.hpp"], [("Cache", R + "Cache.hpp")],
     "lockset data-flow analysis over all paths of all public members",
     "decided from the resolved syntax tree of every instantiation; assumes std::mutex and the standard lock guards do what the standard says")

prop("C04", "No SQLite failure goes unnoticed",
     "Whenever SQLite reports anything but success while a database is opened, prepared, bound, stepped, reset or executed, the operation ends with an exception that carries the failure instead of returning normally. Stepping a query tells 'row' and 'no more rows' apart exactly as SQLite does. No part of the program swallows such an exception and carries on as if the database work had been done.",
     ["fault_sequences", "inputs"], "every SQLite result code at every SQLite call",
     "tests provoke one or two syntax errors; busy, full, corrupt, locked and I/O failures never occur in them",
     [R + "SQLite.hpp", R + "MatrixElementCache.cpp", R + "QuantumDefect.cpp"], [("statement, handle", R + "SQLite.hpp")],
     "exhaustive abstract evaluation over result codes; handler audit over the call graph",
     "every wrapper member is evaluated for every boolean state and result code; trusts the documented meaning of SQLite's codes")

prop("C05", "Iterating a query visits exactly its rows",
     "Running over the result of a query in a range-based loop visits every row exactly once and in order, for any number of rows including none and one. The loop never touches the query after the last row and never steps it twice for one row.",
     ["inputs", "histories"], "queries with any number of result rows",
     "the test iterates over one table with a handful of rows; zero rows or an extra step need other data",
     [R + "SQLite.hpp"], [("statement::iterator", R + "SQLite.hpp")],
     "typestate analysis of the cursor over all iterator states",
     "exhaustive over the iterator's finite state; assumes step() itself is right (C04)")

prop("C06", "SQLite objects are owned, bound and released correctly",
     "Each database connection and prepared query is released exactly once, on success and on failure, and a query never outlives the connection it belongs to. Text bound to a query stays alive and unchanged until the query is executed. A connection that is moved keeps waiting for locked databases, with its callback pointing at the object that now owns it, and a missing (NULL) text field never crashes the reader.",
     ["inputs", "histories", "fault_sequences"], "every construction, move, bind and failure sequence of connections and queries",
     "tests use short-lived objects in one order; dangling text, a stale callback or a leak on failure do not show up in them",
     [R + "SQLite.hpp", R + "MatrixElementCache.hpp", R + "QuantumDefect.cpp"], [("statement, handle", R + "SQLite.hpp")],
     "ownership and lifetime analysis over the syntax tree, abstract evaluation of the wrapper",
     "covers every bind call site and every owner of a connection or query in the tree")

prop("C07", "Database texts, tables, parameters and results fit together",
     "Every SQL text the program assembles is well formed and names only tables and columns that exist in the database it runs against; an insert supplies a value for every column it has to fill; one table has one layout per database. A quantity is stored in the same column that look-ups compare it with, a cache look-up constrains the whole key, and every parameter is given a value before the query runs. Result columns exist, have the type they are read as and are read only while there is a current row.",
     ["inputs", "configurations", "histories"], "every configuration, flag combination and database content",
     "the tests reach only the quantum-defect queries with a few atoms; swapped parameters or a missing key column return plausible numbers",
     [R + "MatrixElements.cpp", R + "MatrixElementCache.cpp", R + "QuantumDefect.cpp", R + "HamiltonianOne.cpp", R + "HamiltonianTwo.cpp", R + "databases/quantum_defects.sql"],
     [("precalculate", R + "MatrixElements.cpp"), ("MatrixElementCache::update", R + "MatrixElementCache.cpp"), ("QuantumDefect::setup", R + "QuantumDefect.cpp")],
     "abstract interpretation of assembled SQL text and statement typestate, checked against the declared schema",
     "texts assembled from configuration keys are judged for zero and one generated part; text read from user files is out of scope")

prop("C02", "Quantum defects depend only on the state and the database",
     "The energy, effective quantum number and model-potential parameters delivered for a state depend only on species, n, l, j and the database asked for: not on earlier look-ups, on other databases used before, on the thread, or on whether the answer came from the cache. Looking the same state up from several threads at once never fails, and a database file that cannot be read is an error. A copy of a quantum-defect object keeps delivering the values of its state after the original is gone.",
     ["histories", "schedules", "fault_sequences"], "every sequence of look-ups with any databases, from any number of threads",
     "tests look one state up in one database from one thread; stale caches and races need a history",
     [R + "QuantumDefect.cpp", R + "QuantumDefect.hpp"], [("QuantumDefect::setup", R + "QuantumDefect.cpp"), ("QuantumDefect::Key", R + "QuantumDefect.hpp")],
     "abstract evaluation of every constructor path from an arbitrary cache state; lockset analysis",
     "databases are identified by name: a file rewritten between two look-ups under one name is out of scope")

prop("C29", "Independent objects can be used from different threads",
     "Using separate objects of the library from different threads is safe: any object shared behind the scenes by all threads is constant, separate for each thread, or only touched under a lock, and no function with hidden global state is called.",
     ["schedules"], "every schedule of threads that use objects of their own",
     "a shared engine or buffer works in single-threaded tests and fails only under contention",
     [R + "utils.hpp", R + "QuantumDefect.cpp", R + "SQLite.hpp"], [("randint_engine", R + "utils.hpp"), ("QuantumDefect::setup", R + "QuantumDefect.cpp")],
     "enumeration of static-storage objects with lockset analysis of every access",
     "covers the library's own statics; state inside third-party libraries is trusted")

prop("C31", "Combining two atoms gives symmetric, normalised pair states",
     "Combining two diagonalised single-atom Hamiltonians gives one basis vector for each pair of their basis vectors whose summed energy is within the cutoff (a negative cutoff keeps all), with that sum as its energy. With exchange or reflection symmetries, of the pairs that exchange would map onto each other only one is kept (none where the symmetry forbids it), each coefficient is spread over the states that exchange and mirror reflection generate, with the sign the chosen parity demands and normalised, states for which two symmetries contradict each other are left out, and with a rotation symmetry only states of that total m stay. The pair states marked as needed are exactly those occurring in pairs within the cutoff.",
     ["inputs"], "all combinations of symmetries, any matrices",
     "no test combines two atoms; a wrong sign or factor shows up only for one combination of symmetries and one sort of state",
     [R + "Hamiltonianmatrix.cpp", R + "Symmetry.hpp"], [("combine, energycutoff", R + "Hamiltonianmatrix.cpp")],
     "abstract evaluation to the transfer relation of the matrix elements, compared with the orbit sums of the symmetry group",
     "half-integer spins; both Hamiltonians diagonal, as the code assumes")

prop("C33", "Quantum defects follow the tabulated series for the right row",
     "The effective quantum number is n minus the Rydberg-Ritz series with the coefficients tabulated for the species, l and j of the state (for l or j beyond the table, its largest entry), and the energy is that of a hydrogen-like level with this quantum number and the tabulated Rydberg constant. Each model-potential parameter delivered is the tabulated one of that name. In the shipped tables every state of every listed species is answered by exactly one row.",
     ["inputs"], "every species, n, l and j",
     "the test reads one atom and l; a swapped coefficient or a missing row for another species or l goes unnoticed",
     [R + "QuantumDefect.cpp", R + "databases/quantum_defects.sql"], [("QuantumDefect::setup", R + "QuantumDefect.cpp"), ("rydberg_ritz", R + "databases/quantum_defects.sql")],
     "formula extraction by abstract evaluation, compared numerically as expressions; lint of the shipped table",
     "the values in the table are only checked for consistency, not against the literature")

prop("C23", "A configuration keeps and delivers exactly what was stored",
     "A number written to a configuration reads back as the same number, and a text as the same text, for every type that can be written and read, from constant and non-constant configurations alike. Saving to and loading from JSON keeps every entry under its own key with its own text, whatever characters the key consists of. Merging takes every value of the right hand side, two configurations are equal exactly if all keys and texts are, and asking a constant configuration for a missing key is an error.",
     ["inputs", "configurations"], "every key, number and text",
     "the test writes 2, 1.2 and one text under plain keys; lost digits, large integers, dots in keys and skipped entries need others",
     [R + "ConfParser.hpp", R + "ConfParser.cpp"], [("Configuration", R + "ConfParser.hpp"), ("save_to_json", R + "ConfParser.cpp")],
     "abstract evaluation of every operator and of both JSON loops over a generic entry",
     "trusts the standard library's conversions and boost's JSON reader and writer; nested JSON objects are out of scope")

prop("C10", "Numbers kept on disk come back exactly",
     "A computed number that is stored for later runs as text or in a database is read back as the same double: it is printed with all digits it needs and is never narrowed on the way in or out.",
     ["inputs"], "every value a matrix element can have",
     "tests compare with tolerances or recompute; digits lost on the way through the database do not show",
     [R + "MatrixElements.cpp", R + "MatrixElementCache.cpp", R + "SQLite.hpp", R + "Basisnames.cpp"], [("precalculate", R + "MatrixElements.cpp"), ("statement", R + "SQLite.hpp")],
     "flow-sensitive data-flow analysis of stream precision; type audit of bound and read values",
     "quantum numbers are taken to be multiples of one half below 100000; trusts SQLite to store REAL as 64 bit")

prop("C13", "A matrix never hands out bytes of an older state",
     "Whenever a Hamiltonian matrix is hashed, sent or written to a file, the bytes used are the encoding of the matrix as it is at that moment: changing the entries or the basis by any operation, successful or not, never leaves the encoding of an earlier state behind. Bytes read from a file or received count as the matrix only once they were decoded into it completely.",
     ["histories", "fault_sequences"], "every sequence of operations on matrices, including failed reads",
     "no test touches these matrices; a stale encoding gives a result file of the wrong step only after a particular sequence of calls",
     [R + "Hamiltonianmatrix.cpp", R + "Hamiltonianmatrix.hpp", R + "Serializable.hpp"], [("Hamiltonianmatrix", R + "Hamiltonianmatrix.cpp")],
     "interprocedural typestate analysis of the kept encoding over all normal and exceptional exits",
     "tells states apart per operation, not per value; the round trip of the encoding itself is C12")

prop("C12", "Stored matrices are read back as they were",
     "The bytes a Hamiltonian matrix is sent as or written to a file carry dimensions, values (real and imaginary part) and positions of both its matrices completely: decoding them gives the same matrices, and the GUI's loader reads the same dimensions, values and positions. Every stored number or list carries its type and is read as that type, whatever type it is read into. Data that end early are refused, never read past their end, and complete data are never refused.",
     ["inputs"], "every matrix, real or complex, and every truncation of its bytes",
     "no test writes or reads such a file; a swapped item or a missing bounds check needs complex data or a truncated file",
     [R + "Serializable.hpp", R + "Hamiltonianmatrix.cpp", R + "Hamiltonianmatrix.hpp", G + "loader.py"],
     [("Serializer", R + "Serializable.hpp"), ("doSerialization", R + "Hamiltonianmatrix.cpp"), ("readMatrix", G + "loader.py")],
     "abstract evaluation of writer, reader and loader to item lists; linear bounds check of every read path",
     "assumes fewer than 2^31 elements and one machine for writing and reading; the values of corrupted but complete files are out of scope")

prop("C14", "Result files appear whole or not at all and announce nothing stale",
     "A matrix file or settings file gets its name only after all its data were written and closed successfully; an interruption or failure at any moment leaves no incomplete file under that name and is reported by an exception, and reading reports success only if the whole file was read. A settings file stands beside a matrix only if that matrix was calculated with exactly these settings: it is removed before the matrix is replaced and written after, and a stored matrix is used only if the settings stored with it equal the current ones. Each calculated or loaded step is reported to the user interface exactly once, with the name its files have, after both files exist.",
     ["fault_sequences", "crash_points", "histories"], "a crash or I/O failure at every point of every step, and every state of the cache folder before",
     "the calculation loops are not run by any test, and no test injects a failed write or looks at a folder left behind by a crash",
     [R + "Hamiltonianmatrix.cpp", R + "ConfParser.cpp", R + "HamiltonianOne.cpp", R + "HamiltonianTwo.cpp"],
     [("Hamiltonianmatrix::save", R + "Hamiltonianmatrix.cpp"), ("Configuration::save_to_json", R + "ConfParser.cpp"), ("HamiltonianOne::build", R + "HamiltonianOne.cpp"), ("HamiltonianTwo::calculate", R + "HamiltonianTwo.cpp")],
     "path analysis with every outcome of every I/O call; event-order analysis of the result loops",
     "assumes rename replaces atomically; the basis lists (.csv) are out of scope; parts of the loops that touch no file are abstracted")

prop("C17", "Matrix operations keep entries and basis together",
     "Every operation on a Hamiltonian matrix acts on its entries and its basis consistently: selecting basis vectors keeps the chosen columns of the basis and the matching rows and columns of the entries in their order, a change of basis to X gives the basis X and the entries represented in it, and diagonalisation gives the eigenvalues with the eigenvectors expressed in the original coordinates. A basis vector survives exactly if it meets the stated criterion (weight on the wanted coordinates, energy below the cutoff). Adding and scaling act on the entries and leave the basis alone.",
     ["inputs", "histories"], "every matrix and basis, of any size, real or complex",
     "no test touches these matrices; a wrong conjugation or an unselected row needs a complex, non-trivial basis to be seen",
     [R + "Hamiltonianmatrix.cpp", R + "Hamiltonianmatrix.hpp"], [("Hamiltonianmatrix", R + "Hamiltonianmatrix.cpp")],
     "symbolic evaluation of every operation to terms of matrix algebra, compared as algebra",
     "trusts Eigen and the numerical eigensolver; thresholds are compared as formulas, not in floating point")

prop("C28", "Green tensors are dipole fields and their gradients, in any order of use",
     "The dipole-dipole tensor of two atoms is the field of a point dipole at their separation plus, if a surface was added, the field of its mirror image; the dipole-quadrupole and quadrupole-dipole tensors are the gradients of it with respect to the position of the second and of the first atom. Every tensor handed out is the one for the surface accepted last, no matter which tensors were asked for before. A surface is refused for atoms that do not lie in the xz-plane, and a refused surface changes nothing.",
     ["inputs", "histories"], "every separation and surface distance, and every order of calls",
     "the tests compare some energies for fixed geometries; a stale tensor needs a certain order of calls, a wrong component a geometry that excites it",
     [R + "GreenTensor.cpp", R + "GreenTensor.hpp"], [("GreenTensor", R + "GreenTensor.cpp")],
     "abstract evaluation of the class over all call histories to one formula per tensor element",
     "histories up to four calls (the state has three flags); formulas are compared at generic points against the exact derivative of the image field")

prop("C30", "Radial wave functions and integrals follow the documented equations",
     "The model potential is the documented sum of core, polarisation and, for l below 4, spin-orbit term with the spin told by the species. Numerov's method runs inwards with its three-point recurrence on an equidistant grid up to the documented outer bound, starts with the sign given by the parity of n-l and is normalised over the whole grid; Whittaker's amplitudes are those of the closed form for the effective quantum number. The radial integral sums the product of both amplitudes and the power of r over the points both grids have in common, so it does not depend on the order of the two states.",
     ["inputs"], "every state, model potential and pair of grids",
     "the tests look at two states of one species; spin terms, high l or grids that overlap only partly need others",
     [R + "Wavefunction.cpp", R + "Wavefunction.hpp"], [("Numerov", R + "Wavefunction.cpp"), ("Whittaker", R + "Wavefunction.cpp"), ("IntegrateRadialElement", R + "Wavefunction.hpp")],
     "abstract evaluation to one formula per grid point, compared with the equations at generic points",
     "small grids stand for all sizes; the accuracy of the method itself and GSL's hypergeometric function are out of scope")

prop("C35", "Rotations use Wigner's functions",
     "The rotation coefficients of a state with angular momentum j are Wigner's: d(beta) for every j, pair of projections and angle (at right angles, where a special case is used, as well as around them), and D = exp(-i m alpha) d(beta) exp(-i m' gamma).",
     ["inputs"], "every angular momentum, pair of projections and angle",
     "no test evaluates them; a sign that depends on the projections or a special case that is used too widely shows only for certain values",
     [R + "WignerD.cpp", R + "WignerD.hpp"], [("WignerD", R + "WignerD.cpp")],
     "abstract evaluation to a formula in the angles for each set of quantum numbers, compared with the closed form",
     "all quantum numbers up to j = 7/2, samples above; rounding for very large j is out of scope")

prop("C21", "States compare, sort and hash consistently",
     "Two states, or two pairs of states, are equal exactly when all their quantum numbers (and species, where the kind of state keeps species apart) agree; unequal is the opposite; the order is the lexicographic one by species where kept, n, l, j, m and first atom before second; a wildcard matches anything in the subset test; equal states have equal hashes. What a pair reports for its first or second atom, or after exchanging, replacing, ordering or reflecting, are that atom's own species and numbers, and its energy is the sum of its atoms'. A digit at the end of a species gives the spin and is not part of the element.",
     ["inputs"], "all pairs of states and all combinations of wildcards",
     "the tests compare a few states that differ in many numbers; a comparison that forgets one number, or a mixed-up atom, needs states that differ in just that",
     [R + "StateOld.cpp", R + "StateOld.hpp", R + "State.cpp", R + "State.hpp"], [("StateOneOld, StateTwoOld", R + "StateOld.cpp"), ("StateOne, StateTwo", R + "State.cpp")],
     "abstract evaluation of every operator over the relations between members; symbolic evaluation of constructors and accessors",
     "complete over relations of members (smaller, equal, greater, wildcard); assumes numbers are ordered, that is no NaN")

prop("C36", "Basis lists contain exactly the states within the limits",
     "A list of single-atom states made from the settings contains every state n, l, j, m allowed by quantum mechanics whose numbers differ from those of the start state by at most the given limits, each exactly once and nothing else; a negative limit for l, j or m means no limit; a list for both atoms is the union for both start states. A list of pair states contains every combination of a state of the first and one of the second list, taking states out keeps exactly those marked as needed, and the list of an atom taken from pair states contains each of that atom's states once. States are numbered consecutively from zero, the dimension is their number, the initial pair state carries the number of its entry, and the settings kept with a list are those it was made from.",
     ["inputs"], "every start state and every combination of limits",
     "no test builds a basis; a state missing at the edge of a range, or only for negative m or unrestricted limits, needs just that start state",
     [R + "Basisnames.cpp", R + "Basisnames.hpp"], [("BasisnamesOne, BasisnamesTwo", R + "Basisnames.cpp")],
     "iteration-domain extraction of the loop nests, enumerated against the specification; element-wise comparison of products and filters",
     "80 to 240 start states and limits stand for all; single-atom states of half-integer spin only; reading states back from a file is not covered")

prop("C03", "Parallel loops are free of data races",
     "No two iterations of a loop run by several threads access the same memory at the same time with one of them writing, unless both do so within the same critical section; this includes the bits of a bit vector, static variables and caches of functions called at any depth, and the shared database statement and identifier generator. Everything printed from within such a loop, by whatever function, is printed in one common critical section, so that lines of the protocol never mix. An identifier for new settings is registered with the database in the same critical section in which the lack of one was discovered.",
     ["schedules"], "every schedule of the iterations",
     "races show under rare interleavings only, and the programs with parallel loops are not part of the tests at all",
     [R + "HamiltonianOne.cpp", R + "HamiltonianTwo.cpp", R + "Hamiltonianmatrix.cpp", R + "Hamiltonianmatrix.hpp", R + "SQLite.hpp"], [("HamiltonianOne::build", R + "HamiltonianOne.cpp"), ("HamiltonianTwo::calculate", R + "HamiltonianTwo.cpp"), ("combine, energycutoff, load, save", R + "Hamiltonianmatrix.cpp")],
     "interprocedural lockset analysis over the parallel loops with index-disjointness proofs, and a typestate pass for look-up and registration",
     "foreign functions are assumed to change only what they get by mutable reference and to be safe to call from several threads; a cell of a pointer and its target are not told apart; SQLite is assumed to be built thread-safe, other processes are another property's matter")

prop("C15", "Queries of a system see everything that was set before",
     "Whatever is asked of a system of one or two atoms (states, basis vectors, overlaps, Hamiltonian, indices, connections to another system) or done to it first builds what it needs, so that all restrictions and parameters set before are seen, for the other system of a pair too. Building the basis does nothing only if a basis exists and no restriction is pending, initialises or updates it otherwise and uses every restriction up once; a basis without states or vectors is refused. Building the Hamiltonian adds the interaction exactly once to the Hamiltonian without interaction, keeps a copy of that one unless memory is to be saved, starts from this copy after a parameter was changed, and leaves the Hamiltonian alone if nothing changed.",
     ["histories", "programs"], "every order in which a system is configured, queried and reconfigured",
     "the tests of the systems are not even built here; a forgotten build step shows only when nothing else has built the system before, a wrong restart only on the second change of a parameter",
     [R + "SystemBase.cpp", R + "SystemBase.hpp", R + "SystemOne.cpp", R + "SystemTwo.cpp"], [("getOverlap, getMainStates, getConnections, buildBasis, buildHamiltonian", R + "SystemBase.cpp")],
     "interprocedural typestate (built before used) over all public operations; symbolic evaluation of the build steps",
     "what the interaction of a subclass adds is not looked at here; rebuilding after a parameter change is required by the subclasses' setters")
prop("C18", "Operations on a system keep basis, Hamiltonian and states together",
 "Every operation that restricts, constrains, transforms, rotates, diagonalises or combines quantum systems applies one and the same transformation to the basis vectors, the Hamiltonian, the unperturbed copies and the interaction, and one and the same selection to the list of states, so that the system keeps describing the same vectors with the same energies. Restrictions keep exactly the states and vectors whose quantum numbers, energies and weights are within the limits. Requests that cannot be met (mixed settings, vectors that are not orthogonal, indices out of range, systems that are not unitary) are refused.",
 ["programs", "histories"], "any sequence of operations on a system of any size",
 "Tests compare energies of a few systems; whether every matrix gets the same transformation matters only when the others are used later and for systems of any size.",
 [R+"SystemBase.cpp", R+"SystemBase.hpp"], [("canonicalize, unitarize, rotate, diagonalize, add, constrainBasisvectors, updateEverything, applyRightsideTransformator, removeRestrictedStates", R + "SystemBase.cpp")],
 "abstract interpretation of the type-checked AST (symbolic matrix algebra) with comparison of normal forms",
 "The numerical quality of eigenvectors and square roots is not claimed, nor what subclasses do when told about a change (C20).")
prop("C38", "System queries report what the system contains",
 "The entries of the Hamiltonian of a quantum system that are read, set or increased by naming two states are the matrix elements between these two states, the conjugate element being changed along. Overlaps are the squared moduli of the vectors on the states asked for (all matching states if wildcards are used), rotated by the angles given. The main state of a vector is that of its largest element, and connected vectors are each other's largest overlap.",
 ["programs", "inputs"], "any system of any size and any states asked for",
 "Tests read a handful of real-valued entries; conjugation, exchanged states and wildcards show up only for complex systems and particular states.",
 [R+"SystemBase.cpp"], [("getHamiltonianEntry, setHamiltonianEntry, addHamiltonianEntry, getOverlap, getMainStates, getConnections, getBasisvectorIndex, getStateIndex", R + "SystemBase.cpp")],
 "abstract interpretation of the type-checked AST (symbolic matrix algebra) with comparison of normal forms",
 "The assignment of vectors to a list of states (a greedy matching) is not claimed.")
prop("C11", "Archives restore systems, states, caches and matrices completely",
 "A quantum system, a state, a cache of matrix elements or a matrix that is written to an archive (pickled, copied to another process) and read back carries every setting and every intermediate result it had: each data member is written and read in the same order, in text and binary archives alike, or set up anew while reading. Matrices come back with the same dimensions and all their entries.",
 ["programs", "histories"], "objects in any state of their life, every kind of archive",
 "A setting that is left out of an archive shows only when the restored object is used in the way that needs it.",
 [R+"SystemBase.hpp", R+"SystemOne.hpp", R+"SystemTwo.hpp", R+"State.hpp", R+"StateOld.hpp", R+"MatrixElementCache.hpp", R+"serialization_eigen.hpp"], [("serialize of SystemBase, SystemOne, SystemTwo, StateOne, StateTwo, MatrixElementCache", R + "SystemBase.hpp"), ("archives of Eigen matrices", R + "serialization_eigen.hpp")],
 "abstract interpretation of the archive functions (type-checked AST, every path, helpers followed): effects on each data member",
 "The archive library itself and the Python side that recreates an object before reading are assumed to be right.")
prop("C16", "Changing a setting of a system takes effect or is refused",
 "Every setting of a one- or two-atom system (fields, rotated fields, diamagnetism, ion, distance, angle, order, surface, Green tensor, symmetries, choice of one-atom vectors) becomes exactly what was asked for and is announced to the system, so that the Hamiltonian is recalculated; what affects the basis can be set only while the system has no states, and parameters cannot be changed once the interaction cannot be taken out again. A setting that is refused, also because it contradicts others or cannot be represented by a real system, leaves the system as it was.",
 ["histories", "inputs"], "any setting of any system at any time of its life",
 "A missing announcement shows only when a setting is changed after a query; a setting that stays half-done after an error shows only when the error is caught and the system used further.",
 [R+"SystemOne.cpp", R+"SystemTwo.cpp", R+"SystemBase.cpp"], [("setEfield, setBfield, enableDiamagnetism, setIonCharge, setRydIonOrder, setRydIonDistance, changeToSphericalbasis, rotateVector", R + "SystemOne.cpp"), ("setDistance, setDistanceVector, setAngle, setOrder, setSurfaceDistance, enableGreenTensor, setOneAtomBasisvectors", R + "SystemTwo.cpp"), ("onParameterChange, onSymmetryChange", R + "SystemBase.cpp")],
 "abstract interpretation of the type-checked AST (every path); stored formulas compared with the definition at sample points",
 "The rotation matrix itself is not claimed here; units are those of the parameters.")
prop("C19", "Only matching systems are combined",
 "Combining two systems of one or two atoms is refused, without changing anything, unless they have the same species and agree in every parameter of the interaction (fields, diamagnetism, ion charge, order and distance, distance vector, multipole order, Green tensor, surface). A symmetry the systems differ in is dropped from the combined system, the momenta allowed become those of both, common symmetries stay, and interaction operators kept for the old basis are discarded.",
 ["programs", "inputs"], "any two systems of the same kind",
 "Tests combine equally configured systems; a parameter that is not compared is silently taken from one of them.",
 [R+"SystemOne.cpp", R+"SystemTwo.cpp"], [("incorporate, deleteInteraction", R + "SystemOne.cpp"), ("incorporate, deleteInteraction", R + "SystemTwo.cpp")],
 "abstract interpretation of the type-checked AST (every path): settings found equal on accepted paths against the settings the interaction reads",
 "That settings determined by others (spherical components, distance) always agree with them is C16; what the base class does with the two bases is C18.")
prop("C22", "The Hamiltonian contains the interaction that was asked for",
 "The Hamiltonian of a one-atom system contains the Stark, Zeeman and diamagnetic interaction with the field given and the interaction with an ion of the charge, order and distance given; that of a two-atom system the multipole interaction up to the order given, its angle-dependent dipole part, or that of the Green tensor. Each operator enters once with the factor of the textbook formula and follows every transformation of the basis; combinations of settings that cannot be calculated (surface, order or direction without a suitable Green tensor, atoms too close) are refused.",
 ["inputs", "programs"], "any field, distance, angle, order and charge",
 "Tests compare a few field strengths and distances along the axes; a wrong sign or power of one component shows only for general directions and complex fields.",
 [R+"SystemOne.cpp", R+"SystemTwo.cpp"], [("addInteraction, transformInteraction", R + "SystemOne.cpp"), ("initializeInteraction, addInteraction, transformInteraction", R + "SystemTwo.cpp")],
 "abstract interpretation of the type-checked AST; the Hamiltonian as a linear form in symbolic operators compared with the definition at sample points",
 "The matrix elements the operators are filled with are not looked at here; settings become what was asked for by C16.")
prop("C32", "Selection rules never drop a non-zero matrix element",
 "Whether the matrix element of a multipole or magnetic operator between two states is calculated is decided by selection rules. They admit every pair of states for which the angular part of the matrix element is not zero, for every spin, order and change of m; they admit no pair that conservation of m, the triangle of j and order, or parity forbid; and the rule that leaves the change of m open admits exactly the pairs that the rule for some change of m admits.",
 ["inputs"], "any two states, any order and any change of m",
 "Tests know a few allowed and forbidden pairs; a rule that is one too strict silently drops couplings between special states only.",
 [R+"MatrixElementCache.cpp", R+"MatrixElements.cpp"], [("selectionRulesMultipoleNew, selectionRulesMomentumNew", R + "MatrixElementCache.cpp"), ("selectionRulesMultipole, selectionRulesMomentum", R + "MatrixElements.cpp")],
 "abstract interpretation of the type-checked AST to formulas (every path), decided for all states of a bounded domain against exact Wigner symbols",
 "l up to 4 and around 10, orders up to 3; the formulas are piecewise linear in the quantum numbers, larger ones meet the same cases.")

prop("C24", "Progress lines are understood as they were meant",
 "The calculation programs report their progress to the graphical interface as lines of text. Every line either backend writes is decoded to exactly the numbers (up to seven digits) and file names it carries: results are queued, with their step, number of blocks, block and file, for the map announced last, basis files are listed for it, totals and dimensions are taken over, errors reach the user, and any other text changes nothing. The running number of a result is 1 + step * blocks + block in both backends, there is one result per step and block, and the results of a calculation that did not announce its end are discarded.",
 ["histories", "inputs"], "any run of either backend, any numbers and file names",
 "No test connects the three programs; producer and consumer agree on columns only by convention, and a cut digit appears only for large numbers.",
 ["pairinteraction_gui/worker.py", "pairinteraction_gui/pipy_thread.py", R+"HamiltonianOne.cpp", R+"HamiltonianTwo.cpp", R+"Interface.cpp"],
 [("AllQueues.processOneLine, Worker.run", G+"worker.py"), ("start_pipy, run_simulations, print_completed, output", G+"pipy_thread.py"), (">>OUT, >>DIM, >>TOT, >>BAS, >>STA lines", R+"HamiltonianOne.cpp"), (">>TYP, >>END lines", R+"Interface.cpp")],
 "abstract interpretation of the Python and C++ sources over strings of literal characters and formatted fields; polynomial identity for the numbering",
 "Numbers of more than seven digits are outside the protocol. The Python backend is evaluated for a set of shapes of calculations (one atom, pair, one to four blocks) with the physics left symbolic.")

prop("C25", "A stored result is reused only for the calculation it came from",
 "The Python calculation backend stores the energies and eigenvectors of every step in a file and takes an existing file instead of calculating again. The name of the file determines everything the stored numbers depend on: species, start states, restrictions, symmetries, method, diamagnetism, order, distance and all fields that were really applied to each atom in that step, and the reference energy that was subtracted. Consequently a step has the same name, settings and numbers whether earlier steps were calculated or found, and the announced file is the one written or found.",
 ["histories", "inputs"], "any settings of the window and any order of calculations",
 "A stale result looks like a correct one; it needs two calculations that differ in just the value that is missing from the name, or a step whose system was not updated.",
 ["pairinteraction_gui/pipy_thread.py", "pairinteraction_gui/pipy/config.py", "pairinteraction_gui/pipy/atom.py"],
 [("PipyThread.start_pipy, one_run, params_to_settings", G+"pipy_thread.py"), ("Config.toOutDict, toHash", G+"pipy/config.py"), ("AtomOne/AtomTwo._createSystem, updateFromParams", G+"pipy/atom.py")],
 "abstract interpretation of the Python backend with symbolic parameters; dependence analysis of the stored values on the hashed ones",
 "Distinct numbers are assumed to have distinct text and distinct texts distinct hashes. Evaluated with two steps, one process and generic values (different inputs are different, limits are given or switched off); the physics library and numpy are opaque.")

prop("C37", "The interface rotates states with Wigner's d-matrix",
 "The d-matrix elements the graphical interface uses to rotate the overlap with a state are Wigner's d^j_{m2 m1}(beta) for every angular momentum, pair of projections and angle. This holds whether the element is calculated, remembered from another element by symmetry, remembered from an earlier request at this or another angle, or read back from the files an earlier session saved.",
 ["inputs", "histories"], "all angular momenta up to 5/2 and some larger, all projections, generic and special angles of both signs; requests in several orders, one or two angles, one to three sessions",
 "A sign shows only for some order of projections, and a wrong reuse only after particular earlier requests; no test covers the interface.",
 ["pairinteraction_gui/utils.py"],
 [("Wignerd.calc, Wignerd.save", G+"utils.py"), ("Wignerd._eval_wignerd", G+"utils.py")],
 "abstract interpretation to formulas in the angle, the memory and its files modelled as maps; comparison of the formulas with the closed form",
 "Angles closer than the resolution of the file name (1e-9) share their elements. Formulas are compared at sampled angles.")

prop("C26", "Values keep their meaning between window, files and library",
 "A quantity entered in a field of the window in any unit of its kind reaches the library as the same physical quantity in the unit the library calculates in, and back. The conversion factors follow from the definitions of the units, agree with the constants of the library, and do not depend on the order or number of conversions; a value of the wrong kind is rejected rather than rescaled. What is written to a field or to a settings file is read back as the same value, and no two settings share a field.",
 ["inputs", "configurations"], "every kind of quantity, several units of each, all sequences of up to three conversions; all fields of the window",
 "A wrong factor gives plausible numbers, and the interface has no tests.",
 ["pairinteraction_gui/unitmanagement.py", "pairinteraction_gui/guiadditions.py", "pairinteraction_gui/app.py", "pairinteraction/Constants.hpp"],
 [("Units, Quantity.toAU, Quantity.toUU", G+"unitmanagement.py"), ("GuiDict, Quantity fields", G+"guiadditions.py"), ("SystemDict", G+"app.py"), ("au2GHz, au2Vcm, au2G, au2um", R+"Constants.hpp")],
 "abstract interpretation of the conversion code with symbolic magnitudes against dimensional analysis; evaluation of the constants of the library",
 "The unit library is modelled (linear units, gauss as 1e-4 tesla); text written with the locale is taken to be exact. The factors are compared to seven digits, as the sources of the constants differ in age.")

prop("C34", "The physical constants are right in the units of the library",
 "Every physical constant the library multiplies with (Bohr magneton, electron mass, Coulomb constant, g-factors, conversion to and from atomic units) equals the CODATA value expressed in gigahertz, volt per centimeter, gauss and micrometer.",
 ["programs"], "all constants of the header",
 "All energies scale with these numbers; tests compare results with values computed by the same constants.",
 ["pairinteraction/Constants.hpp"],
 [("au2GHz ... speed_of_light", R+"Constants.hpp")],
 "constant evaluation of the initialisers against CODATA values and dimensional analysis",
 "Compared to relative 1e-7; changes within the uncertainty between CODATA releases are not distinguished.")

na("C39", "Radial wave functions and integrals are accurate",
 "The radial wave functions and the integrals over them deviate from the exact solutions for the model potential by no more than the step width and the grid limits explain, for every state of every tabulated species.",
 ["inputs"], "all species and quantum numbers up to n of several hundred",
 "Tests compare a few integrals between the two methods; a loss of accuracy for high n or l is visible only there.",
 ["pairinteraction/Wavefunction.cpp"], [("Numerov::integrate, Whittaker::integrate, IntegrateRadialElement", R+"Wavefunction.cpp")],
 "The accumulated rounding and discretisation error of a recurrence over tens of thousands of points is a runtime quantity: interval or error-term analysis of the inward recurrence through the classically forbidden region diverges, so no static bound in reach is smaller than the value itself. That the recurrence, the potential and the integrand are the documented ones is decided under C30.")
na("C40", "Eigenvalues and eigenvectors belong to the matrix that was diagonalised",
 "Every returned eigenpair satisfies the eigenvalue equation of the stored Hamiltonian up to rounding, eigenvectors are orthonormal, and none inside the requested energy window is missing.",
 ["inputs"], "all Hermitian matrices the library builds, degenerate ones included",
 "All results of the library pass through the diagonalisation.",
 ["pairinteraction/SystemBase.hpp", "pairinteraction/Hamiltonianmatrix.cpp"], [("SystemBase::diagonalize", R+"SystemBase.hpp"), ("Hamiltonianmatrix::diagonalize", R+"Hamiltonianmatrix.cpp")],
 "Convergence and accuracy are properties of numerical routines outside this repository (Eigen, LAPACK, FEAST) whose results cannot be bounded from the source. That the results are put into basis and energies consistently and that the routines' results are checked is decided under C17 and C18.")
na("C41", "Perturbative coefficients agree with the exact diagonalisation",
 "C6 and C3 coefficients from second-order perturbation theory agree with the long-distance limit of the exactly diagonalised pair potential.",
 ["inputs"], "all pair states away from Foerster resonances",
 "The coefficients are used to estimate interactions without any check against the exact result.",
 ["pairinteraction/PerturbativeInteraction.cpp"], [("PerturbativeInteraction::getC6, getC3, getEnergy", R+"PerturbativeInteraction.cpp")],
 "Both sides are numbers that depend on radial integrals and on the energies of some hundred intermediate states; their agreement is an asymptotic statement about runtime values, for which no static argument is in reach.")

prop("C27", "The interface calculates what was entered",
 "The systems whose results the Python calculation backend stores are set up exactly as the settings of the window say: each atom with its own species and the limits around its own start state (around both start states if the atoms share a basis), the pair energy limited around the sum of the energies of the start states, diamagnetism, arithmetic, method, order, symmetries and conserved momenta as chosen. Every combination of the chosen symmetries and momenta is calculated as a block of its own, once for every step, and no other; with the restriction to the sector of the start state the blocks left out are those that cannot contain it.",
 ["configurations", "inputs"], "all combinations of given and absent limits, kinds of calculation and symmetries of the scenario list; numbers symbolic",
 "A limit taken from the other atom or a block left out gives a plausible but wrong spectrum; the interface has no tests.",
 ["pairinteraction_gui/pipy_thread.py", "pairinteraction_gui/pipy/config.py", "pairinteraction_gui/pipy/atom.py"],
 [("params_to_settings, PipyThread.start_pipy", G+"pipy_thread.py"), ("Config.restrictQn, qnumbers, momenta, symmetry", G+"pipy/config.py"), ("AtomOne/AtomTwo._createSystem", G+"pipy/atom.py")],
 "abstract interpretation of the Python backend with symbolic parameters; comparison of the final settings of every system with their meaning",
 "Momenta of blocks are compared for concrete quantum numbers. Fields, distance and names of results are decided under C25. Values are generic: different inputs are different.")

prop("C42", "Symmetries selected automatically are symmetries",
 "Whenever the window selects symmetries by itself, every selected one is a symmetry of the Hamiltonian that will be calculated: inversion and permutation only for two atoms with the same basis, inversion only without electric field, permutation only for the dipole-dipole interaction, reflection and rotation only if no field, seen along the interatomic axis, breaks them at any point of the scan. Both parities of a symmetry are selected together, no box keeps an outdated state, and a manual selection is left alone.",
 ["inputs", "configurations"], "all patterns of none, one or two non-zero field components at either end of the scan (and some more) with all combinations of angle, order, bases and momentum",
 "A wrongly assumed symmetry splits the Hamiltonian into blocks that are coupled and changes energies silently.",
 ["pairinteraction_gui/app.py"], [("MainWindow.autosetSymmetrization", G+"app.py")],
 "abstract interpretation in the domain zero / not zero, compared with the symmetries of the interaction",
 "Different inputs are assumed not to cancel. That nothing but symmetries is selected is decided, not that all symmetries are.")

prop("C43", "A calculation starts with what was entered",
 "When a calculation is started, the configuration written for the C++ program and the parameters given to the Python backend are the same and contain every entered value in the units of the library; limits that are switched off arrive as switched off. Both fields are turned into the frame of the interatomic axis, at both ends of the scan, by the entered angle. Complex arithmetic is requested exactly if it is needed, and tabulated wave functions beyond their range are refused for either atom.",
 ["inputs", "configurations"], "every button, same or different bases, several angles, orders, patterns of fields and limits",
 "A value that is dropped, not rotated or taken from the other atom leads to a result for another situation than the one displayed; the interface has no tests.",
 ["pairinteraction_gui/app.py"], [("MainWindow.startCalc", G+"app.py"), ("SystemDict.keys_for_cprogram_*", G+"app.py")],
 "abstract interpretation of the start of a calculation, with opaque widgets, against the meaning of the entries",
 "The units of single fields are decided under C26. Rotation is compared at sampled angles and field values, other values are symbolic.")
