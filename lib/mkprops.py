"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; the result is committed)."""
import json, os, importlib, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
B, O, T = "quspin/basis/", "quspin/operators/", "quspin/tools/"
CORE = B + "basis_general/_basis_general_core/source/"
P = []


def prop(id, title, statement, over, text, why, files, mechs):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechs]}})


prop("C01", "operator strings have their textbook matrix elements in every basis",
     "For every basis without lattice symmetries (spin, boson, spinless and spinful fermion; full space or any particle sector) the matrix of a list of "
     "operator strings equals the sum over the couplings of the ordered products of textbook local operators, with the fermionic signs of the "
     "documented site ordering, restricted to the basis states. This includes repeated and unordered sites, complex couplings, every local dimension "
     "and normalisation convention, and systems whose states need any integer width.",
     ["inputs", "configurations"],
     "all basis kinds, sizes, spins / cut-offs, sectors, operator strings, site tuples and couplings",
     "the tests compare a handful of fixed Hamiltonians between two code paths of the library; no test has an independent matrix-element oracle, repeated sites, multi-sector bases or wide integers",
     [B + "base.py", B + "basis_1d/base_1d.py", B + "basis_1d/_basis_1d_core/", CORE, O + "_make_hamiltonian.py"],
     [("per-site matrix elements, 1d", B + "basis_1d/_basis_1d_core/*_ops.pyx"), ("per-site matrix elements, general", CORE + "*_basis_core.h"),
      ("assembly into a sparse matrix", O + "_make_hamiltonian.py")])
prop("C02", "1d symmetry blocks split the Hilbert space and represent the operator exactly",
     "For every translation/parity/inversion symmetric operator the matrix in each symmetry block of a one-dimensional basis is the restriction of the full matrix to an orthonormal set "
     "of states with exactly the requested quantum numbers. The blocks of all quantum numbers together have the dimension and the spectrum of the full (or particle-sector) space. Blocks with no state are empty, not wrong.",
     ["inputs", "configurations"],
     "all chain lengths, unit cells, momenta, reflection/inversion/sublattice parities and their combinations, with and without particle sectors, for all four 1d basis classes, and all operators with that symmetry",
     "the tests fix one or two Hamiltonians and small parameter loops for spin-1/2 and compare eigenvalues only; combined blocks of other bases, unit cells a>1 and multi-sector blocks are not sampled",
     [B + "basis_1d/base_1d.py", B + "basis_1d/_basis_1d_core/", B + "basis_1d/spin.py", B + "basis_1d/boson.py", B + "basis_1d/fermion.py"],
     [("representatives and norms", B + "basis_1d/_basis_1d_core/sources/basis_templates.pyx"), ("symmetry-reduced matrix elements", B + "basis_1d/_basis_1d_core/sources/op_templates.pyx"), ("projector", B + "basis_1d/base_1d.py:get_proj")])
prop("C03", "user-defined symmetry maps split the space and represent the operator exactly",
     "For every set of commuting symmetry maps (site permutations combined with local inversions) and every combination of their quantum numbers, the matrix of a symmetric operator in the block of a general basis "
     "is the restriction of the full matrix to an orthonormal set of simultaneous eigenvectors of the maps with those quantum numbers. Over all quantum numbers the block dimensions add up to the space, and so do the spectra.",
     ["inputs", "configurations"],
     "all basis kinds, commuting maps generated from random permutations and inversions, quantum numbers, particle sectors and symmetric operators",
     "the tests use translations and reflections of small square lattices; arbitrary permutations, maps with sublattice inversion, fermionic signs of maps and non-trivial particle sectors are not sampled",
     [B + "basis_general/base_general.py", CORE + "general_basis_core.h", CORE + "make_general_basis.h", CORE + "general_basis_op.h"],
     [("representative search", CORE + "general_basis_core.h"), ("symmetry-reduced matrix elements", CORE + "general_basis_op.h"), ("projector", CORE + "general_basis_get_vec.h")])
prop("C04", "a basis lists exactly its states, and states, integers and indices agree",
     "Every basis enumerates exactly the configurations of its sector (or exactly one representative per non-vanishing orbit of the symmetry group), each once and in descending order, however it is built. "
     "Looking up a state's index, writing an integer as a state string, and reading it back are mutually inverse; integers outside of the basis are refused.",
     ["inputs", "configurations"],
     "all bases, sectors (single, lists, counted from the top, photon-style lists), symmetry blocks, and all their states",
     "tests construct a few bases and count or compare the states of two constructors; the round trips over all states and all ways to name a sector are not covered",
     [B + "base.py", B + "basis_1d/base_1d.py", B + "basis_general/base_general.py"],
     [("enumeration, 1d", B + "basis_1d/_basis_1d_core/sources/basis_templates.pyx"), ("enumeration, general", CORE + "make_general_basis.h"), ("index / state / int", B + "base.py, base_1d.py, base_general.py")])
prop("C05", "projectors between a block and the full space are consistent isometries",
     "The projector of a symmetry block has orthonormal columns that are eigenvectors of the block's symmetries, to the full space and to the particle-sector space alike. "
     "Lifting a state, projecting it, and applying the projector matrix are the same map for vectors and matrices, dense and sparse, and projecting undoes lifting.",
     ["inputs", "configurations"],
     "all bases with and without blocks and particle sectors, real and complex, single and stacked states, dense and sparse",
     "tests check one Hamiltonian's projection per basis; sparse and stacked inputs, particle-sector targets and dtypes are sampled once or not at all",
     [B + "basis_1d/base_1d.py", B + "basis_general/base_general.py", B + "tensor.py", CORE + "general_basis_get_vec.h"],
     [("get_proj / get_vec / project_from / project_to", B + "base.py"), ("vector kernels", CORE + "general_basis_get_vec.h")])
prop("C06", "all ways of applying an operator string in a basis agree",
     "Computing an operator string's matrix elements, applying it to vectors in place (with transposition, conjugation and any data type), its bra-ket form, and its form that maps one symmetry sector into another "
     "all describe the same linear map. Representatives, their normalisation, and amplitudes between states and representatives agree with the block's projector.",
     ["inputs", "configurations"],
     "all bases, blocks, sector pairs, operator strings, and input vectors of every dtype and memory layout",
     "each entry point has one or two example-based tests against a fixed Hamiltonian; the agreement for arbitrary strings, blocks, dtypes, strides is not sampled",
     [B + "base.py", B + "basis_1d/base_1d.py", B + "basis_general/base_general.py", CORE + "general_basis_op.h", CORE + "general_basis_rep.h"],
     [("Op / inplace_Op / Op_bra_ket / Op_shift_sector", B + "basis_general/base_general.py"), ("representative, normalization, get_amp", B + "basis_general/base_general.py")])
prop("C07", "operator lists are accepted exactly when they have the required properties",
     "With the checks on, a Hamiltonian is built if and only if its operator list is hermitian, conserves the basis' particle number, and commutes with its symmetries; otherwise the construction is refused. "
     "Expanding a list into other operators describes the same operator.",
     ["inputs", "configurations"],
     "all operator lists, static and time-dependent, symmetric and slightly broken, in all bases and blocks",
     "the tests check that a few known lists raise or pass; soundness and completeness over all lists is not sampled",
     [B + "base.py", B + "basis_1d/_check_1d_symm.py", B + "basis_1d/_check_1d_symm_spf.py", B + "basis_general/base_general.py", B + "basis_general/base_user.py"],
     [("check_hermitian, check_pcon, check_symm", B + "base.py"), ("expanded_form", B + "base.py and the basis classes")])
prop("C08", "tensor and photon bases are Kronecker products of their parts",
     "Operators, states, indices and projections in a tensor-product basis are those of the Kronecker product of its factors, nested products included. "
     "In a photon basis they are those of the product with the truncated oscillator, or of the states with the requested total number of particles and photons.",
     ["inputs", "configurations"],
     "all pairs and nestings of factor bases, photon cut-offs, conserved totals and operator strings split over the factors",
     "the tests compare one spin-photon and one fermion-product Hamiltonian; blocks in the factors, nesting, conserved totals with other spins are not sampled",
     [B + "tensor.py", B + "photon.py"],
     [("tensor_basis.Op", B + "tensor.py"), ("photon_basis.Op", B + "photon.py")])
prop("C09", "a user-defined basis with a built-in's rules behaves as the built-in",
     "A user basis whose callbacks implement a built-in local Hilbert space, particle sector and symmetry maps has the same states, matrices, projectors and blocks as that built-in basis.",
     ["inputs", "configurations", "programs"],
     "all supported local dimensions, sectors, symmetry maps with quantum numbers, and operator lists",
     "a few fixed spin, boson and fermion examples are compared",
     [B + "basis_general/base_user.py", CORE + "user_basis_core.h", B + "user.py"],
     [("callbacks", CORE + "user_basis_core.h"), ("user_basis", B + "basis_general/base_user.py")])
prop("C10", "reduced density matrices and entanglement entropies are those of the state",
     "For every basis and every bipartition, the reduced density matrix of a pure, mixed or stacked input is the partial trace of the state in the full product space, for dense and sparse inputs and for either side. "
     "The entropies and entanglement spectra derived from it are the von Neumann and Renyi entropies of those matrices.",
     ["inputs", "configurations"],
     "all bases incl. symmetry blocks, tensor and photon products, all subsystems, pure / mixed / many states, Renyi orders and options",
     "the tests use fixed half-chain cuts of random states and compare the library's own code paths",
     [B + "_reshape_subsys.py", B + "base.py", B + "basis_1d/base_1d.py", B + "basis_general/base_general.py", B + "tensor.py", B + "photon.py", B + "basis_1d/fermion.py", B + "basis_general/fermion.py"],
     [("reshaping into subsystems", B + "_reshape_subsys.py"), ("partial_trace / ent_entropy", B + "basis classes")])
prop("C11", "time-dependent Hamiltonians form an algebra that evaluates pointwise",
     "After any sequence of additions, subtractions, products, scalings, adjoints and copies of Hamiltonians, matrices and numbers, the value of the result at every time is the same expression of the operands' values at that time. "
     "An operation that is not in place leaves its operands as they were; an in-place one changes only its target.",
     ["histories", "inputs"],
     "all histories of operations over static and time-dependent operands, sparse and dense, of all dtypes, evaluated at all times",
     "the tests run single operations on a pair of operands and never compare a history, aliasing, or products of two time-dependent Hamiltonians",
     [O + "hamiltonian_core.py", O + "_functions.py"],
     [("arithmetic dunders", O + "hamiltonian_core.py"), ("function algebra", O + "_functions.py")])
prop("C12", "queries on a Hamiltonian agree with linear algebra on its matrix",
     "Every product, expectation value, matrix element, fluctuation, diagonal, trace, eigen-decomposition, rotation, projection and format or dtype conversion of a Hamiltonian gives what the same operation gives on its dense matrix at that time. "
     "This holds for all input shapes and kinds (vectors, matrices, stacks over times, sparse), and leaves the Hamiltonian and the inputs unchanged.",
     ["inputs", "configurations"],
     "all Hamiltonians (static, dynamic, sparse formats, dense), state shapes and dtypes, times",
     "each query has a few fixed-shape examples",
     [O + "hamiltonian_core.py"],
     [("dot, rdot, expt_value, matrix_ele, quant_fluct, eigh, rotate_by, project_to ...", O + "hamiltonian_core.py"), ("matvec kernels", T + "matvec/")])
prop("C13", "time evolution solves its equation of motion",
     "Evolving a state, a set of states or a density matrix returns at each requested time the solution of the stated equation (Schroedinger, imaginary-time, Liouville-von Neumann, or the user's right-hand side) to the solver's tolerance. "
     "This holds for every order of times, start time, generator or stacked output, and for the matrix-exponential and exact-diagonalisation shortcuts alike; the inputs are not modified.",
     ["inputs", "configurations"],
     "all (time-dependent) Hamiltonians, initial states and shapes, time grids, equation kinds, solver options",
     "the tests evolve one or two fixed Hamiltonians and compare the library's own routes",
     [O + "hamiltonian_core.py", T + "evolution.py", T + "expm_multiply_parallel_core/"],
     [("hamiltonian.evolve", O + "hamiltonian_core.py"), ("evolve, ED_state_vs_time, expm_multiply_parallel", T + "evolution.py")])
prop("C14", "a parametrised operator is the parameter-weighted sum of its parts",
     "For every set of parameters a parametrised operator acts, and answers every query, as the sum of its component matrices weighted with the parameters (missing ones being one). Arithmetic, conversion and evaluation at parameters commute, and no operation alters its operands or keeps parameters from an earlier call.",
     ["inputs", "histories"],
     "all input dictionaries of matrices and operator lists, parameter dictionaries, states, and histories of operations",
     "the tests cover one fixed dictionary",
     [O + "quantum_operator_core.py"],
     [("quantum_operator", O + "quantum_operator_core.py")])
prop("C15", "a matrix-free operator equals the assembled one",
     "A matrix-free operator built from an operator list, an optional diagonal, and any sequence of scalings, adjoints and sums acts on vectors and matrices and answers every query as the assembled matrix does, and its operations leave the operands unchanged.",
     ["inputs", "histories"],
     "all bases and blocks, operator lists, diagonals, input shapes and dtypes, and histories of operations",
     "the tests compare matrix-vector products for a few lists",
     [O + "quantum_LinearOperator_core.py", B + "base.py"],
     [("quantum_LinearOperator", O + "quantum_LinearOperator_core.py")])
prop("C16", "the exponential-operator object applies the matrix exponential",
     "An exponential-operator object acts, from the left, from the right and by conjugation, as the matrix exponential of its coefficient times its (shifted) operator, once or at every point of its grid, as arrays or as an iterator. "
     "Taking transposes, conjugates and adjoints and changing the coefficient or the grid give the corresponding exponentials.",
     ["inputs", "histories"],
     "all operators, coefficients, shifts, grids and modes, operands and histories of changes",
     "the tests cover one Hamiltonian with a fixed grid",
     [O + "exp_op_core.py"],
     [("exp_op", O + "exp_op_core.py")])
prop("C17", "Lanczos iterations and methods built on them satisfy their definitions",
     "A Lanczos run returns an orthonormal Krylov basis and the eigensystem of the projected operator, for every operator, start vector and dimension, including breakdown. "
     "Linear combinations, matrix exponentials and finite-temperature estimates computed from it equal their definitions in terms of these data, and become exact when the Krylov space is complete.",
     ["inputs", "configurations"],
     "all Hermitian operators (matrix, matrix-free), start vectors, Krylov dimensions, temperatures and observables",
     "the tests check one random matrix with loose tolerances",
     [T + "lanczos/"],
     [("lanczos_full / lanczos_iter / lin_comb_Q_T / expm_lanczos / FTLM / LTLM", T + "lanczos/")])
prop("C18", "block-diagonal construction and block evolution equal the full problem",
     "The block-diagonal Hamiltonian built from a list of symmetry blocks equals the direct sum of the blocks, and its projector maps it from the full Hamiltonian. Evolving or exponentiating through blocks gives the same states as evolving the full Hamiltonian, for every option.",
     ["inputs", "configurations"],
     "all symmetric operators, block lists, initial states, time grids and options",
     "one fixed chain and set of blocks",
     [T + "block_tools.py"],
     [("block_diag_hamiltonian, block_ops", T + "block_tools.py")])
prop("C19", "Floquet analysis returns the spectrum and states of the period's evolution",
     "For every periodic drive, given as a continuous Hamiltonian, a step list or a list of Hamiltonians, the reported one-period unitary is the product of the evolutions, and quasi-energies, Floquet states and Floquet Hamiltonian are its eigen-data. "
     "The stroboscopic time vector has the documented times, indices and slices for every frequency and number of periods.",
     ["inputs", "configurations"],
     "all drives, periods, step lists, vector options",
     "one fixed drive; the test compares the library's own routes",
     [T + "Floquet.py"],
     [("Floquet, Floquet_t_vec", T + "Floquet.py")])
prop("C20", "measurement and utility functions compute their definitions",
     "Diagonal-ensemble averages, entropies, fluctuations, observables over time, projections, Kullback-Leibler divergences, level-spacing ratios and array utilities return the value of their documented formula for every admissible input, and leave their inputs unchanged.",
     ["inputs", "configurations"],
     "all states (pure, mixed, ensembles), observables, times and options",
     "each function has one example",
     [T + "measurements.py", T + "misc.py"],
     [("diag_ensemble, obs_vs_time, ED_state_vs_time, KL_div, mean_level_spacing ...", T + "measurements.py, misc.py")])
prop("C21", "compiled matrix-vector kernels equal the dense product",
     "Every compiled matrix-vector and matrix-matrix product (compressed-row, compressed-column, diagonal; overwrite or accumulate; any scale, dtype, shape and memory layout of input and output) equals the dense product.",
     ["inputs", "configurations"],
     "all formats, dtypes, index types, shapes, strides, scales and thread counts",
     "the tests use contiguous random square matrices",
     [T + "matvec/", T + "expm_multiply_parallel_core/", T + "misc.py"],
     [("matvec kernels", T + "matvec/"), ("csr_matvec", T + "expm_multiply_parallel_core/csr_matvec_core.py")])
prop("C22", "saving, loading, pickling and copying preserve objects",
     "An object that is saved and loaded, pickled and unpickled, or copied behaves exactly as the original afterwards, and changing one leaves the other unchanged.",
     ["inputs", "histories"],
     "all bases, Hamiltonians, parametrised operators and their histories",
     "one or two fixed objects are stored and compared",
     [O + "hamiltonian_core.py", O + "quantum_operator_core.py", B + "base.py", B + "basis_general/"],
     [("save_zip / load_zip", O), ("__getstate__ / __setstate__ / __reduce__", B + "basis_general/")])
prop("C23", "big-integer state utilities agree with integer arithmetic",
     "The bit operations on and conversions of basis integers of every width agree with Python's integers modulo 2**width, for lists and arrays alike, with masks and outputs; arrays of differing types are refused. get_basis_type gives the smallest width that holds every state.",
     ["inputs"],
     "all widths up to 16384 bits, all values incl. boundaries, all array shapes",
     "a few fixed values",
     [B + "basis_general/_basis_general_core/general_basis_utils.pyx", B + "basis_general/_basis_general_core/source/bits_info.h"],
     [("python_int_to_basis_int, bitwise_*, ...", B + "basis_general/_basis_general_core/general_basis_utils.pyx")])
prop("C24", "lattice transformations are the stated permutations",
     "Square-lattice translations, reflections and inversions are the stated permutations of the sites, obey the group relations, and keep neighbour relations, for every lattice size. The symmetry blocks the iterators list are valid and together make up the whole space, each state once.",
     ["inputs"],
     "all lattice sizes (rectangular included), shifts and transformations",
     "used only indirectly",
     [B + "transformations/square.py"],
     [("square_lattice_trans", B + "transformations/square.py")])


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
            f.write(json.dumps(p) + "\n")
    sys.path.insert(0, VERIF)
    checks, na = [], []
    for p in P:
        path = os.path.join(VERIF, "checks", p["id"].lower() + ".py")
        if not os.path.exists(path):
            na.append({"property": p["id"], "reason": "check under construction: decided by this technique, but its generator and oracle are not finished"})
            continue
        ns = {}
        src = open(path).read()
        doc = {}
        for key in ("TECHNIQUE", "LEVEL_NOTE"):
            i = src.index("\n%s = " % key)
            j = src.index("\n\n", i) if "\n\n" in src[i:] else len(src)
            exec(src[i:j], doc)
        checks.append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
                       "technique": doc["TECHNIQUE"], "level": "exploration", "level_note": doc["LEVEL_NOTE"]})
    man = {"version": 1, "setup_cmd": "./run.sh --setup", "checks": checks, "not_applicable": na,
           "notes": "no hooks are needed in /repo; every check rebuilds the compiled extensions from /repo's working tree if they are stale (lib/ensure_build.py)"}
    json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed,", len(na), "not yet")


if __name__ == "__main__":
    main()
