"""Writes /verif/properties.jsonl (one property per line)."""
import json, os

F = "impurityModel/ed/finite.py"
S = "impurityModel/ed/spectra.py"
PSR = "impurityModel/ed/product_state_representation.py"
CR, RM = "impurityModel/ed/create.py", "impurityModel/ed/remove.py"
AV = "impurityModel/ed/average.py"
MP = "impurityModel/ed/mpi_comm.py"
GS, CF = "impurityModel/ed/get_spectra.py", "impurityModel/ed/get_spectra_using_CF.py"
PL, PR = "impurityModel/plotScripts/plotSpectra.py", "impurityModel/plotScripts/plotRIXS.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
    )
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


prop("P01", "Applying an operator to a many-body state is exact",
     "Applying any second-quantized operator to any many-body state gives exactly the amplitudes that the fermionic algebra prescribes, each process acting from right to left with the right sign and contributions to the same product state being added. "
     "The result contains every product state whose squared amplitude reaches the requested cutoff and which satisfies all occupation restrictions, and no other product state. "
     "The operator and the input state are left unchanged.",
     ["inputs"], "all operators (any number of processes of any length, int/float/complex strengths), all states over any number of spin-orbitals, all cutoffs and occupation restrictions",
     "The tests apply a handful of one- and two-creation operators to single product states with 6 spin-orbitals; signs, interference between processes, multi-state input, restrictions combined with superpositions and cutoffs are sampled at single points or not at all.",
     [F, CR, RM, PSR], [("applyOp (four branches: with/without restrictions, with/without result cache)", F)], ["return value of applyOp"])

prop("P02", "Creation and removal of electrons obey the fermionic algebra",
     "In every product-state encoding, adding or removing an electron yields amplitude zero exactly when the Pauli principle forbids it, and otherwise the correctly changed product state with the sign given by the parity of occupied spin-orbitals of lower index. "
     "All encodings agree with each other, and the operators lifted to superpositions are linear and satisfy the canonical anticommutation relations.",
     ["inputs", "histories"], "all system sizes, all product states, all orbitals, all sequences of creations and removals, all superpositions",
     "One creation and one removal test on a fixed 7-orbital state; signs for other positions, byte boundaries, wide systems and sequences of operations are never reached.",
     [CR, RM, F], [("utuple/uint/ustr/ubitarray/ubytes", CR), ("utuple/uint/ustr/ubitarray/ubytes", RM), ("a, c", F)], ["amplitude and new product state"])

prop("P03", "Product-state encodings convert into each other without loss",
     "Translating a product state between the tuple, string, integer, bit-array and byte-string encodings always gives the encoding of the same set of occupied spin-orbitals, in the documented layout (spin-orbital 0 is the leftmost character and the most significant bit; byte strings are zero-padded at the end). "
     "Any chain of translations returns to the original.",
     ["inputs"], "all numbers of spin-orbitals (including multiples of eight and beyond 64) and all occupations, including empty and full",
     "Each conversion is tested on two or three fixed product states with few spin-orbitals.",
     [PSR], [("the 20 x2y conversion functions", PSR)], ["return values"])

prop("P04", "Caching of operator results never changes an answer",
     "Applying an operator with a result cache gives the same state as applying it without one, whatever was computed with that cache before and whatever the caller did with earlier returned states. "
     "The cache always holds, for every product state acted on so far, precisely the operator applied to that product state (within the occupation restrictions and above the cutoff), and existing entries are never altered.",
     ["inputs", "histories"], "all sequences of applications of one operator with one shared cache to arbitrary states, with and without restrictions",
     "One test calls twice with the same single product state; no history with partially cached superpositions, restrictions and a cache, or mutated results exists.",
     [F, S], [("opResult handling in applyOp", F), ("t_big, tIn_big, tOut_big, h_dict caches", S)], ["return value of applyOp", "contents of opResult"],
     [("opResult / h_dict", "product state -> operator applied to it", F)])

prop("P05", "Operator algebra: adjoint, sum and Hermiticity check",
     "The adjoint of an operator is its Hermitian conjugate as a linear map and taking it twice gives back the operator; the sum of operators is their sum as linear maps. "
     "The Hermiticity check accepts an operator exactly when it equals its adjoint term by term. "
     "None of these modifies its arguments.",
     ["inputs"], "all operators with int, float or complex strengths, including repeated and cancelling terms; lists of any number of operators",
     "Only the Hermiticity of the shipped files is asserted; adjoint and sum have no test of their own.",
     [F], [("daggerOp", F), ("addOps", F), ("assert_hermitian", F)], ["return values / AssertionError"])

prop("P06", "Many-body states form an inner-product space",
     "The overlap of two states is conjugate-linear in the first and linear in the second argument, Hermitian, and consistent with the squared norm; adding a multiple of one state to another is exact for every product state of either. "
     "The in-place addition changes only its first argument, the other operations change none.",
     ["inputs"], "all pairs of states with arbitrary overlap of their product states, int/float/complex amplitudes and multipliers",
     "No test covers these functions.",
     [F], [("inner, add, addToFirst, norm2", F)], ["return values"])

prop("P07", "Spin-orbital labels and indices are in one-to-one correspondence",
     "For every system layout the map from labels (impurity spin-orbitals and bath states) to indices is a bijection onto 0..N-1 whose inverse is the index-to-label map, with all impurity spin-orbitals first (per angular momentum spin down before spin up, increasing magnetic quantum number) followed by the bath states in order. "
     "A label or index outside the layout is rejected with an error.",
     ["configurations", "inputs"], "all layouts: any angular momenta in any order, any numbers of bath states, including baths shared between several angular momenta",
     "No test covers the maps; every Hamiltonian, basis and spectrum is expressed through them.",
     [F], [("c2i", F), ("i2c", F)], ["return values / exceptions"])

prop("P08", "The restricted many-body basis is exactly the allowed set",
     "The generated basis contains every product state compatible with the given shells, nominal occupations, allowed deviations and allowed numbers of electrons leaving valence or entering conduction bath states, each once, and nothing else. "
     "Requests that would over-fill a partition are rejected.",
     ["configurations"], "all shells, bath sizes, valence/conduction splits, nominal occupations and tolerances",
     "No test covers basis generation.",
     [F], [("get_basis", F)], ["return value"])

prop("P09", "The Hamiltonian matrix is the operator in the given basis",
     "For every operator and every ordered list of product states, the matrix element in row i and column j is the amplitude of product state i in the operator applied to product state j, for every construction mode (dense or sparse, serial or parallel), and the modes agree. "
     "A Hermitian operator yields a Hermitian matrix.",
     ["inputs", "configurations"], "all operators, all bases (closed under the operator or not, any order), all modes",
     "No test covers matrix construction.",
     [F], [("get_hamiltonian_matrix", F)], ["returned matrix"])

prop("P10", "Basis expansion reaches exactly the connected product states",
     "Starting from any set of allowed product states the expanded basis starts with them and contains exactly the product states reachable by repeated application of the Hamiltonian within the occupation restrictions, each once. "
     "The accompanying matrix is the Hamiltonian in that basis with consistent indices, and re-using what was stored about the Hamiltonian in earlier expansions never changes the outcome.",
     ["inputs", "histories", "configurations"], "all Hamiltonians, start states, restrictions; all sequences of expansions sharing one store; serial and parallel modes",
     "No test covers expansion; the store is shared over all operators and eigenstates of a run.",
     [F], [("expand_basis", F), ("get_hamiltonian_matrix_from_h_dict", F), ("expand_basis_and_hamiltonian", F)], ["basis, matrix, index map, h_dict"],
     [("h_dict", "product state -> H applied to it", F)])

prop("P11", "The returned eigenstates are the lowest eigenpairs of the Hamiltonian",
     "The returned energies are the requested number of lowest eigenvalues of the Hamiltonian in the given basis in ascending order, and the returned states are corresponding orthonormal eigenvectors up to the stated weight cutoff. "
     "Full and iterative diagonalization agree, and asking for as many states as the basis holds works.",
     ["inputs", "configurations"], "all Hermitian operators (real or complex, with or without degeneracies), all bases including one-dimensional ones, all requested numbers and cutoffs",
     "No test diagonalizes anything without the missing reference file.",
     [F], [("eigensystem", F)], ["energies and states"])

prop("P12", "The Coulomb interaction operator is the true Slater-Condon interaction",
     "For all Slater-Condon parameters the two-particle operator equals the Coulomb integrals of the spherical-harmonic orbitals, including all spin terms, counted once. "
     "It is Hermitian, conserves total spin and orbital angular momentum, and reproduces the known multiplet energies and configuration-averaged repulsion of the d shell.",
     ["inputs"], "all shells s..f, all orbital combinations, all Slater-Condon parameter values",
     "No test computes a Coulomb matrix element.",
     [F], [("gauntC, getU", F), ("getNoSpinUop, getUop, get2p3dSlaterCondonUop", F)], ["operator terms and their action"])

prop("P13", "Spin-orbit, Zeeman and cubic-harmonics definitions are exact",
     "The spin-orbit operator equals the coupling constant times L.S and the magnetic-field operator equals h.S in the given shell, for all strengths and field directions. "
     "The spherical-to-cubic transformation is unitary and its columns are real-valued functions with the documented e_g/t2g (or p) ordering, with or without spin.",
     ["inputs"], "all shells s..f, all coupling strengths, all field vectors, all angles",
     "No test covers these operators.",
     [F], [("getSOCop", F), ("gethHfieldop", F), ("get_spherical_2_cubic_matrix", F)], ["operator terms, matrix"])

prop("P14", "Crystal-field parameters define the intended Hamiltonian",
     "For all crystal-field parameters the constructed one-particle Hamiltonian is Hermitian, spin-independent, and has exactly the e_g and t2g levels, bath levels and hoppings that the parameters state, with unspecified parameters taking their documented defaults. "
     "The choice of bath basis changes neither its eigenvalues nor its impurity part, and conduction bath terms appear exactly when conduction bath states exist.",
     ["inputs", "configurations"], "all parameter values and all subsets of specified parameters, 10 or 20 bath states, both bath bases",
     "No test covers the crystal-field construction; whether Hermiticity survives rounding depends on the values.",
     [CF], [("read_h0_CF_file, get_CF_hamiltonian", CF)], ["operator terms"])

prop("P15", "The total Hamiltonian is the sum of its physical terms",
     "For all input parameters the Hamiltonian used in a simulation is exactly the sum of the Coulomb, spin-orbit, magnetic-field, double-counting and non-interacting terms expressed in the system's spin-orbital indices, and it is Hermitian and conserves the number of electrons. "
     "The double-counting shifts follow the multiplet-ligand-field formula in terms of the configuration-averaged repulsions, and inconsistent double-counting input is rejected.",
     ["inputs", "configurations"], "all parameter values; pickled and crystal-field non-interacting Hamiltonians, bath layouts, nominal occupations",
     "No test builds a total Hamiltonian; the tests only read the shipped files.",
     [GS, CF, F], [("get_hamiltonian_operator", GS), ("get_hamiltonian_operator_using_CF", CF), ("dc_MLFT", F)], ["operator terms / ValueError"])

prop("P16", "Static observables are the quantum-mechanical expectation values",
     "For every many-body state the occupation, spin and orbital moments, their squares, e_g/t2g occupations and the density matrices (spherical and cubic) of the d shell equal the expectation values of the corresponding operators, and the ladder operators act as angular-momentum algebra prescribes. "
     "The printed table shows these values state by state with energies relative to the lowest.",
     ["inputs", "configurations"], "all normalized states over any layout containing a d shell (with p shell and baths or not), complex amplitudes",
     "No test covers any observable.",
     [F], [("getLz3d ... getEgT2gOccupation, getDensityMatrix(Cubic), getTraceDensityMatrix", F), ("applyLz3d ... applySminus3d", F), ("printExpValues", F)], ["return values", "standard output"])

prop("P17", "Thermal averages are Boltzmann averages at the requested temperature",
     "The thermal average of any observable (scalar or array) is its Boltzmann-weighted mean at the given temperature, independent of a common energy shift and of the order of the states, and rejects mismatching input. "
     "The printed thermal expectation values use the requested temperature and exactly the states within the stated number of k_B T.",
     ["inputs"], "all energies, degeneracies, temperatures from near zero to very high, observables of any shape",
     "No test covers thermal averaging.",
     [AV, F], [("thermal_average", AV), ("printThermalExpValues", F)], ["return value", "standard output"])

prop("P18", "The Green's function equals the exact resolvent",
     "The Green's function of a normalized state computed by the Lanczos recursion equals the diagonal matrix element of the resolvent of the Hamiltonian (restricted to the allowed product states), on the whole energy mesh and for all algorithm variants, whenever the Krylov space is large enough. "
     "The tridiagonal coefficients are those of the Krylov space of that state, also when it is exhausted early, and an empty state gives zero.",
     ["inputs", "configurations"], "all Hermitian Hamiltonians, states, energies, broadenings of either sign, restrictions, Krylov sizes, modes",
     "No test evaluates a Green's function.",
     [S, F], [("getGreen", S), ("get_tridiagonal_krylov_vectors", F)], ["return values"])

prop("P19", "Spectra equal the transition-operator correlation functions",
     "For every set of eigenstates and transition operators the spectrum of each pair equals the matrix element of the resolvent with the transition operator applied to that eigenstate, independently of all other pairs computed in the same run and of the parallelization mode. "
     "Its spectral weight is non-negative and forbidden transitions give zero.",
     ["inputs", "histories", "configurations"], "all Hamiltonians, lists of transition operators and eigenstates, meshes, restrictions, modes",
     "No test evaluates a spectrum; caches are shared between operators and states within a call.",
     [S], [("getSpectra", S)], ["returned array"],
     [("h", "Hamiltonian store shared over operators and states", S), ("t_big", "per-operator cache", S)])

prop("P20", "Dipole and photo-emission transition operators are exact",
     "The dipole operator has exactly the matrix elements of the polarization vector dotted with the unit position vector between the two shells, linear in the (possibly complex) polarization and diagonal in spin, and the out-going operators are its adjoints. "
     "The (inverse) photo-emission operators remove (add) one electron from each spin-orbital of the requested shell, once each, in index order.",
     ["inputs", "configurations"], "all polarization vectors, shell pairs and bath layouts",
     "No test covers transition operators.",
     [S], [("getDipoleOperator(s), getDaggeredDipoleOperators", S), ("getPhotoEmissionOperators, getInversePhotoEmissionOperators", S)], ["operator terms"])

prop("P21", "The NIXS operator is the plane-wave matrix element for every direction",
     "For every non-zero scattering vector the NIXS transition operator equals (up to the fixed overall factor 1/sqrt(4 pi)) the matrix elements of exp(iq.r) between the orbitals, without the multipoles below the requested lowest order, diagonal in spin. "
     "It is finite for every direction, including along the axes, and covariant under rotation of the scattering vector.",
     ["inputs"], "all scattering vectors, shells, radial functions and meshes, lowest multipole orders",
     "No test covers the NIXS operator; production runs use one direction only.",
     [S], [("getNIXSOperator(s)", S)], ["operator terms"])

prop("P22", "RIXS maps follow the Kramers-Heisenberg formula",
     "For every eigenstate, in-going and out-going transition operator, in-coming energy and energy loss, the RIXS map equals the Kramers-Heisenberg expression evaluated exactly, within the iterative solver's tolerance. "
     "Each entry depends only on its own operators and state, whatever others are computed in the same run and whichever parallelization mode is used.",
     ["inputs", "histories", "configurations"], "all Hamiltonians, lists of in- and out-going operators, eigenstates, meshes, broadenings, restrictions, modes",
     "No test evaluates a RIXS map; several caches are shared within one call.",
     [S], [("getRIXSmap", S)], ["returned array"],
     [("h_dict_excited, h_dict_ground, tIn_big, tOut_big", "caches within one RIXS calculation", S)])

prop("P23", "Results do not depend on the number of MPI ranks",
     "For any number of ranks every calculation terminates without deadlock and the result available on the root rank (and, where results are distributed, on every rank) equals the single-rank result.",
     ["configurations", "schedules", "inputs"], "all numbers of ranks (also more ranks than work items), all parallel calculations, Hamiltonians and modes",
     "All tests run on a single rank.",
     [F, S, MP], [("get_job_tasks, get_hamiltonian_matrix(_from_h_dict), expand_basis, get_tridiagonal_krylov_vectors", F), ("getGreen, getSpectra, getRIXSmap", S)], ["return values on each rank"])

prop("P24", "Work and data are distributed completely and without duplication",
     "The work items assigned to the ranks are a balanced partition of all work items, each assigned exactly once. "
     "The distributed store of the Hamiltonian holds every product state on exactly one rank, the distributed matrix parts add up to the full matrix, and gathering a distributed dictionary (in one or several chunks) gives every rank the complete union.",
     ["configurations", "inputs", "histories"], "all numbers of ranks and work items, all distributions of keys over ranks, all chunk sizes",
     "All tests run on a single rank and none distributes data.",
     [F, MP], [("get_job_tasks, expand_basis, get_hamiltonian_matrix_from_h_dict(return_h_local)", F), ("allgather_dict, dict_chunks_from_one_MPI_rank", MP)], ["per-rank return values and dictionaries"])

prop("P25", "Simulation output files hold the correct spectra",
     "The spectra written by a simulation (photo-emission, core photo-emission, NIXS, XAS, RIXS) are the broadened spectral functions of the corresponding transition operators for every considered eigenstate, together with their Boltzmann averages at the requested temperature. "
     "The text and binary files contain the energy meshes, sums and components of exactly the thermally averaged spectra in the documented layout.",
     ["inputs", "configurations"], "all Hamiltonians, eigenstates, temperatures, meshes, broadenings, polarizations, scattering vectors",
     "The only end-to-end test needs a reference file that is missing and is excluded from the test run.",
     [S], [("simulate_spectra", S)], ["spectra.h5, PS.dat, XPS.dat, NIXS.dat, XAS.dat, RIXS.bin"])

prop("P26", "Simulation drivers turn every input option into the right calculation",
     "Each command-line option reaches the calculation and takes effect: the Hamiltonian, basis, occupation restrictions, broadenings, temperature and energy window used are those the options ask for, and exactly the eigenstates within the energy window (in units of k_B T) above the lowest are passed on to the spectra. "
     "Inconsistent options are rejected, and the saved parameter file and energy meshes match the run.",
     ["configurations", "inputs"], "all combinations of command-line options of both simulation programs",
     "No test runs a driver.",
     [GS, CF], [("argument parsing, main", GS), ("argument parsing, main", CF)], ["arguments of the spectra stage, data.npz, spectra.h5, exit status"])

prop("P27", "Plot scripts display exactly the stored spectra",
     "For every result file, complete or partial, the plot scripts run and the curves and maps they draw are the stored spectra summed over the documented axes on the stored meshes. "
     "The result file is left unchanged, and the documented default file name is used when none is given.",
     ["inputs", "configurations"], "all data files a simulation can produce: any number of polarizations, mesh sizes, values; any subset of spectra; text and binary formats",
     "No test covers plotting.",
     [PL, PR], [("plot_spectra_in_file", PL), ("main", PR)], ["plotted line and image data"])

prop("P28", "Calculations are repeatable and do not disturb their inputs",
     "Performing any sequence of calculations in one process gives for each of them the same result as performing it alone, and repeating one gives the same result. "
     "Arguments that are not documented as outputs are unchanged after every call, and returned objects do not share state with later results.",
     ["histories", "inputs"], "all sequences of library calls with arbitrary arguments",
     "Tests call each function in isolation and never look at the arguments afterwards.",
     [F, S, AV, CR, RM, PSR], [("all functions; in/out arguments are opResult, h_dict, psi1 of addToFirst, the bit-array, total", F)], ["return values and arguments"])

prop("P29", "Observables do not depend on how the physical system is described",
     "Shifting the energy zero, renumbering or rotating bath states, adding a decoupled empty bath state, rotating the field together with spin, or globally changing phases leaves energies and all (suitably mapped) spectra unchanged. "
     "For a cubic system without field the absorption is the same for the three Cartesian polarizations.",
     ["inputs", "configurations"], "all physical parameter sets of d-shell impurities with crystal field and baths, all such changes of description",
     "No test compares two descriptions of one system, and the sizes are beyond a hand-computed expectation.",
     [CF, F, S], [("Hamiltonian construction, eigensystem, getSpectra, getRIXSmap as a whole", F)], ["energies and spectra"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
