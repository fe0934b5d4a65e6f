P("P06", "Finite TDVP: the tangent vector is the projection of (H-E)|psi>",
  "The TDVP tangent vector of a finite chain equals the orthogonal projection of (H - E)|psi> onto the tangent space of "
  "the current state, in either gauge and for two-site, three-site or matrix-product Hamiltonians with any missing "
  "terms. The reported energy, local energies and tangent-vector norm are the exact ones, and computing the tangent "
  "vector changes nothing.",
  ["inputs", "configurations"],
  "all states, Hermitian Hamiltonians (array, callable, gaps, MPO) and gauge / canonical form combinations",
  TEST + "tangent vectors are never compared with a dense projection.",
  [TG, TC],
  [("tangent vector", "evoMPS/tdvp_gen.py:calc_B, calc_B_n, calc_x, calc_B_MPO"),
   ("effective Hamiltonians", "evoMPS/tdvp_gen.py:calc_C, calc_K, calc_K_l"),
   ("kernels", "evoMPS/tdvp_common.py:calc_x, calc_x_3s, calc_x_l, calc_x_l_3s, calc_K, calc_K_3s")],
  ["B from calc_B; eta, H_expect, h_expect"],
  "every tangent vector is mapped to the dense space and compared with the projected residual")

P("P07", "Finite TDVP: Euler and RK4 steps follow the projected flow",
  "One Euler (RK4) step in any complex time direction agrees with the exact flow of the TDVP equations up to an error "
  "of order dt^2 (dt^5), whatever the gauge choice and whichever updates happen between steps. At full bond dimension "
  "this is exact Schroedinger evolution; in real time the norm and energy are conserved, in imaginary time the energy "
  "falls at rate 2 eta^2 and never below the ground energy.",
  ["inputs", "histories", "schedules"],
  "all states, Hamiltonians, time directions and step schedules with interleaved updates",
  TEST + "time evolution is checked on one Ising chain with loose tolerances.",
  [TG],
  [("Euler step", "evoMPS/tdvp_gen.py:take_step"), ("RK4 step", "evoMPS/tdvp_gen.py:take_step_RK4"),
   ("update", "evoMPS/tdvp_gen.py:update")],
  ["tensors before and after each step"],
  "step errors at three step sizes are measured against an independent dense integrator and their order is judged")

P("P08", "Finite TDVP: line search and conjugate gradients minimise the energy",
  "The line search returns a step whose energy is the one it reports, not above the starting energy, and leaves the "
  "state and all derived quantities as they were. Conjugate-gradient steps use gradient plus beta times the previous "
  "direction, never raise the energy, and, like imaginary-time evolution, converge to the ground energy at full bond "
  "dimension and never go below it.",
  ["inputs", "histories"],
  "all states, Hamiltonians (array, callable, gaps), gauges and iteration histories",
  TEST + "the conjugate gradient is run on one Ising chain.",
  [TG],
  [("line search", "evoMPS/tdvp_gen.py:find_min_h_brent"), ("conjugate gradient", "evoMPS/tdvp_gen.py:calc_B_CG")],
  ["tau, energy and tensors after every search"],
  "energies are recomputed densely at every iterate and all stored quantities are compared before/after")

P("P09", "Finite chains: DMRG sweeps only lower the energy and converge",
  "A one-site DMRG sweep (either implementation, with local Hamiltonian, matrix product operator or both) never raises "
  "the energy, leaves a normalised canonical state whose reported energy is exact, and reaches the ground energy at full "
  "bond dimension. Two-site sweeps grow the bonds as needed, respect the bond-dimension and Schmidt-value limits, report "
  "the discarded weight and converge to the ground energy when unlimited; no sweep goes below the ground energy.",
  ["inputs", "histories"],
  "all states, Hermitian Hamiltonians (arrays, callables, gaps, MPO), limits and numbers of sweeps",
  TEST + "one fixed Ising chain is swept.",
  [TG, SS],
  [("one-site sweep", "evoMPS/tdvp_gen.py:vari_opt_ss_sweep, take_step_split"),
   ("generic sweeps", "evoMPS/split_step.py:evolve_split (DMRG=True)")],
  ["tensors and H_expect after every sweep; callback arguments"],
  "recomputes the energy densely after every sweep")

P("P10", "Finite chains: split-step evolution is unitary, symmetric and accurate",
  "Split-step evolution conserves norm and energy in real time, lowers the energy in imaginary time, is undone by the "
  "opposite step, and agrees with the TDVP flow to third order in the step (exactly at full bond dimension), for local "
  "Hamiltonians and matrix product operators. Two-site steps grow bonds without error, respect the bond-dimension and "
  "Schmidt-value limits with a reported discarded weight that bounds the energy change, and callbacks run once per step.",
  ["inputs", "histories"],
  "all states, Hermitian Hamiltonians, real and imaginary steps, limits and step counts",
  TEST + "one fixed Ising chain is evolved and only its energy is read.",
  [TG, SS],
  [("split step", "evoMPS/tdvp_gen.py:take_step_split"), ("generic split step", "evoMPS/split_step.py:evolve_split"),
   ("local operators", "evoMPS/split_step.py:Vari_Opt_Single_Site_Op, Vari_Opt_Two_Site_Op, Vari_Opt_SC_op")],
  ["tensors, H_expect and callback arguments after every step"],
  "compares with dense exponentials, an independent dense TDVP integrator and time reversal")

P("P11", "Krylov exponential: converged results meet the tolerance",
  "Whenever the Krylov solver reports convergence, its result equals exp(tA)v within the requested tolerance (times "
  "time, growth of the exponential and rounding), for any linear operator, start vector, time sign and Krylov size, "
  "including invariant subspaces and zero error estimates. It converges on moderate problems, respects its step and "
  "Krylov limits, leaves its arguments unchanged and returns the start vector at time zero.",
  ["inputs", "configurations"],
  "all operators (real, complex, Hermitian or not), vectors, times, tolerances and limits",
  TEST + "the solver is only exercised through one time evolution.",
  ["evoMPS/sexpmv.py"],
  [("Krylov exponential", "evoMPS/sexpmv.py:gexpmv")],
  ["return values of the solver; matrix-vector products"],
  "compares with a dense matrix exponential")

P("P12", "Uniform states: canonical forms, normalisation and environments",
  "For every uniform state with a gapped transfer operator, updating normalises it and keeps its physical state, "
  "whichever eigenvalue solver, block length, norm, rank, gauge or earlier history it has; the stored l and r are the "
  "normalised dominant fixed points on every bond, and the Schmidt spectra are exact. The symmetric, right and left "
  "canonical forms hold as documented, are stable under repetition, return the gauge matrices they applied, and "
  "automatic truncation removes exactly the zero Schmidt weights.",
  ["inputs", "configurations", "histories"],
  "all unit cells, solver modes and canonical forms, and every sequence of modifications between updates",
  "tests/mps_uniform_pinv.py and the uniform Ising test use symmetric form with block length one or two only.",
  [UNI],
  [("fixed points", "evoMPS/mps_uniform.py:calc_lr"), ("canonical forms", "evoMPS/mps_uniform.py:restore_SCF, "
    "restore_RCF, restore_LCF"), ("update and truncation", "evoMPS/mps_uniform.py:update, auto_truncate, truncate")],
  ["tensors, l, r and returned gauge matrices after each real update or restore call"],
  "compares with the dense transfer operator of the original tensors")

P("P13", "Uniform states: expectation values, correlations and spectra",
  "Every observable of a uniform state (one-, two- and three-site operators, product forms, correlations, strings, "
  "densities, occupancies, entropies, correlation length, spectral gap) equals the value of the infinite state, at "
  "every site offset of the unit cell and in every form of the state. For a symmetry of the state, the string and sum "
  "queries return its representation on the Schmidt vectors, and no query changes the state.",
  ["inputs", "configurations"],
  "all unit cells, canonical forms, operators (arrays and callables), offsets and distances",
  "the uniform tests read only the energy of one Ising chain.",
  [UNI],
  [("local observables", "evoMPS/mps_uniform.py:expect_1s, expect_2s, expect_2s_tp, expect_3s, density_1s"),
   ("correlations and strings", "evoMPS/mps_uniform.py:expect_1s_1s, correlation_1s_1s, expect_string_1s"),
   ("spectra", "evoMPS/mps_uniform.py:correlation_length, calc_E_gap, entropy, expect_string_1s_density_hc")],
  ["return values of the real queries; state before and after"],
  "compares with the dense transfer operator")

P("P14", "Uniform states: truncation, enlargement, blocking, alignment and fidelity",
  "Truncating, enlarging the bond or site dimension, blocking, copying from tensors or another state, adding noise and "
  "applying an operator change a uniform state exactly as documented (embedding the old state, projecting on the "
  "dominant Schmidt vectors, keeping the energy density), and leave valid environments. Fidelities per site equal the "
  "dense overlap eigenvalue, and phase and gauge alignment map the tensors of equal states onto each other, return the "
  "gauge they applied and refuse different states.",
  ["inputs", "configurations"],
  "all unit cells, forms, target dimensions, operators and pairs of states",
  "the uniform tests neither change dimensions nor compare two states.",
  [UNI, TU],
  [("dimension changes", "evoMPS/mps_uniform.py:expand_D, set_q, truncate"),
   ("blocking", "evoMPS/tdvp_uniform.py:convert_to_TI_blocked"),
   ("comparison", "evoMPS/mps_uniform.py:fidelity_per_site, phase_align, gauge_align"),
   ("construction", "evoMPS/mps_uniform.py:from_tensors")],
  ["tensors, environments and return values after each real call"],
  "constructs the documented result densely")

P("P15", "Uniform TDVP: energy, environments, tangent vector and dynamic expansion",
  "For every uniform state and Hamiltonian (two or three sites; array, function or product form) the energy density, "
  "the left and right energy environments on every bond, the gauge-fixed tangent vector and its norm are exactly those "
  "of the time-dependent variational principle, in every canonical form and after any history of quenches, steps and "
  "perturbations. Tangent-vector overlaps, projections and (pseudo-)inverses of the transfer operator are exact, and "
  "dynamic expansion adds exactly the dominant part of the two-site evolution without changing the state at step zero.",
  ["inputs", "configurations", "histories"],
  "all unit cells, Hamiltonians, canonical forms, momenta and histories",
  "tests/mps_uniform_pinv.py checks one inverse per kind; the Ising test only the converged energy.",
  [TU, TC],
  [("energy and environments", "evoMPS/tdvp_uniform.py:calc_C, calc_K, calc_K_l"),
   ("tangent vector", "evoMPS/tdvp_uniform.py:calc_B, calc_BB_Y_2s, calc_B_2s, take_step"),
   ("tangent overlaps", "evoMPS/tdvp_uniform.py:_B_overlap, _B_to_B_GF"),
   ("inverses", "evoMPS/mps_uniform_pinv.py:pinv_1mE")],
  ["h_expect, K, K_left, B, eta, eta_sq and tensors after each real call"],
  "compares with dense solves and finite differences of the dense energy density")

P("P16", "Evolution and optimisation drivers, and dynamic bond expansion",
  "Uniform Runge-Kutta and Euler steps follow the same TDVP flow with orders four and one, conserve energy in real time "
  "and lower it in imaginary time. The drivers (evolve, scipy ODE evolution, imaginary-time, conjugate-gradient and "
  "ground-state searches) reach the requested time or tolerance when they report it, never end a converged search "
  "above its start or below the exact bound, grow bonds as requested, call back once per step, and expanding steps add "
  "exactly the two-site part of the evolution within the given limits.",
  ["inputs", "configurations", "histories"],
  "all states, Hamiltonians, step sizes, tolerances, limits and driver options",
  "the tests run short fixed Ising evolutions and never call a driver.",
  [TU, DY, TG],
  [("uniform steps", "evoMPS/tdvp_uniform.py:take_step, take_step_RK4, calc_B_CG"),
   ("drivers", "evoMPS/dynamics.py:evolve, evolve_scipy_ode, opt_im_time, opt_conj_grad, find_ground"),
   ("finite expansion", "evoMPS/tdvp_gen.py:take_step, calc_BB_Y_2s, calc_BB_2s")],
  ["tensors after every real step or run; callback arguments"],
  "compares with step-size refinement, dense flows, dense projections and exact energy bounds")

P("P17", "Structured matrices, matrix factorisations and null spaces",
  "Identity and diagonal matrix objects behave in every product, sum, adjoint, trace, inner product, root and in-place "
  "operation exactly as the dense matrices they stand for, and Hermitian square roots, inverses and factorisations "
  "reproduce their argument, treat the null space as documented and report its rank. Null-space constructions give "
  "orthonormal bases of the stated dimension, and no operation changes its arguments.",
  ["inputs", "configurations"],
  "all sizes, dtypes, ranks, chains of operands and memory layouts",
  "the tests never call these helpers directly; wrong branches only show for particular operand types.",
  ["evoMPS/matmul.py", TC, "evoMPS/nullspace.py"],
  [("structured matrices", "evoMPS/matmul.py:eyemat, simple_diag_matrix, mmul, adot, dot_inplace, H"),
   ("matrix functions", "evoMPS/matmul.py:sqrtmh, invmh, invtr; evoMPS/tdvp_common.py:herm_sqrt_inv, herm_fac_with_inv, calc_l_r_roots"),
   ("null spaces", "evoMPS/nullspace.py; evoMPS/tdvp_common.py:calc_Vsh, calc_Vsh_l")],
  ["every result of the real operation next to its operands"],
  "compares with dense numpy arithmetic on the same operands")
P("P18", "Transfer maps, contractions and transfer-operator inverses",
  "Every elementary contraction (transfer maps with and without operators, multi-site and MPO versions, operator "
  "application, K accumulation) equals its defining tensor network for any shapes, dtypes, memory layouts and "
  "structured environments, and left and right maps are adjoint. The transfer-operator (pseudo-)inverse solves its "
  "defining linear system within tolerance at any momentum, from either side, for one or two states and any cell size.",
  ["inputs", "configurations"],
  "all tensor shapes, dtypes, layouts, environments, momenta and cells",
  "the tests reach most contractions only through square complex tensors in C order.",
  [CC, TC, "evoMPS/mps_uniform_pinv.py"],
  [("transfer maps", "evoMPS/core_common.py:eps_l_noop, eps_r_noop, eps_l_op_1s, eps_r_op_2s_*, eps_r_noop_multi, eps_l_op_MPO, ..."),
   ("contractions", "evoMPS/tdvp_common.py:calc_C_*, calc_K*, eps_*_op_2s_*, eps_*_op_3s_*, apply_MPO_local"),
   ("inverses", "evoMPS/mps_uniform_pinv.py:pinv_1mE, pinv_1mE_brute, pinv_1mE_brute_LOP")],
  ["every result of the real contraction or solver next to its operands"],
  "compares with a plain einsum of the definition and with dense linear algebra")

P("P19", "Compiled extensions: same values, memory-safe, race-free",
  "The optional compiled modules, built from the shipped C files or translated afresh, compute the same contractions, "
  "structured-matrix operations, closeness tests and Hamiltonian applications as their definitions, for any shapes, "
  "layouts and number of threads, and the package gives the same results on top of them. They never access memory out "
  "of bounds or invoke undefined behaviour, refuse mismatched arguments, give repeatable results under threads and do "
  "not leak memory.",
  ["inputs", "configurations", "schedules"],
  "all tensor shapes, environments, thread counts and Hamiltonian callbacks",
  "the tests never build or import the extensions.",
  ["evoMPS/eps_maps_c.pyx", "evoMPS/eps_maps_c.c", "evoMPS/core_common.c", "evoMPS/matmul.c", "evoMPS/allclose.pyx",
   "evoMPS/tdvp_calc_C.pyx"],
  [("parallel transfer maps", "evoMPS/eps_maps_c.pyx:eps_l_noop_inplace, eps_r_noop_inplace, gdmm"),
   ("compiled kernels", "evoMPS/core_common.c, evoMPS/matmul.c"),
   ("helpers", "evoMPS/allclose.pyx:allclose_mat; evoMPS/tdvp_calc_C.pyx:calc_C")],
  ["results, guard zones and canaries of every compiled call, sanitizer reports, resident memory"],
  "AddressSanitizer and UndefinedBehaviorSanitizer builds, guard zones, and definition oracles under 1-8 threads",
  tech="runtime monitoring and sanitizers: ASan+UBSan builds of the extensions, guard zones and canaries around every operand, einsum oracles, repeatability under threads, resident-memory monitor")

P("P20", "Uniform excitations: effective Hamiltonian, spectra and local profiles",
  "The excitation solvers of a uniform state (trivial and domain-wall ansatz, any momentum, any Hamiltonian form) apply "
  "the Hermitian effective Hamiltonian of the tangent-space ansatz, relative to the ground-state energy, and return its "
  "requested eigenvalues and orthonormal eigenvectors, iterative and dense solvers agreeing and neither changing the "
  "state. Excitation tensors from parameters are gauge-fixed with the right norm, and the reported local profiles and "
  "correlations around an excitation are the exact ones.",
  ["inputs", "configurations"],
  "all gapped one-site-cell uniform states, symmetry-related pairs, Hamiltonians, momenta and solver options",
  "the tests never compute an excitation.",
  ["evoMPS/mps_uniform_excite.py", "evoMPS/tdvp_uniform.py", "evoMPS/mps_uniform_pinv.py"],
  [("effective Hamiltonian", "evoMPS/mps_uniform_excite.py:Excite_H_Op, Excite_H_Op_tp"),
   ("solvers", "evoMPS/tdvp_uniform.py:excite_top_triv, excite_top_nontriv, *_brute"),
   ("profiles", "evoMPS/tdvp_uniform.py:expect_tangent_1s, expect_tangent_2s, correlation_tangent_1s_1s")],
  ["matrix elements, spectra, eigenvectors and profiles of live excitation operators, tensors of the state before and after"],
  "explicit momentum sums over excitation positions of the infinite chain, and dense diagonalisation",
  tech="runtime monitoring: live excitation operators probed with random vectors against an explicit momentum-sum oracle")

P("P21", "Dissipative TDVP: stochastic steps unravel the Lindblad equation",
  "A dissipative step adds to the state the tangent-space projection of the norm-preserving drift (Hamiltonian, "
  "Lindblad decay and measurement terms) times the step, plus complex Gaussian noise, independent for every operator and "
  "step and of variance dt, along each projected Lindblad operator; it leaves the Hamiltonian and operators as they were, "
  "in either gauge, for every form of Hamiltonian and after any history. Averages over trajectories follow the Lindblad "
  "equation, dynamic expansion captures the two-site part, and expectation values after an update are exact.",
  ["inputs", "histories", "random draws"],
  "all finite chains, Hamiltonians, Lindblad operators, steps, gauges, options and noise",
  "the tests never run a dissipative step.",
  ["evoMPS/tdvp_gen_diss.py", "evoMPS/tdvp_gen.py"],
  [("stochastic step", "evoMPS/tdvp_gen_diss.py:take_step_dissipative, update, calc_B_1s_diss")],
  ["changes of the tensors in every dissipative step, Hamiltonian and operators before and after, trajectory density matrices"],
  "dense tangent-space projection with the noise recovered by least squares, statistics of the noise, and the dense Lindblad propagator",
  tech="runtime monitoring: every stochastic step decomposed against a dense oracle, statistical monitors over recorded noise and trajectories")

P("P22", "Nonuniform windows in infinite chains: gauge, environments, overlaps",
  "Updating, canonicalising or growing a window between two uniform bulks never changes the infinite state it describes: "
  "its norm is one, its environments inside and on both sides of the window are the true ones and the promised canonical "
  "form holds, whatever the two bulks are. Every expectation value, correlation, string, density matrix, Schmidt spectrum, "
  "overlap and tangent-vector overlap, inside the window, outside or across its edges, equals that of the infinite state, "
  "and reading them changes nothing.",
  ["inputs", "histories"],
  "all pairs of bulks, unit cells, window lengths, bond dimensions, gauges, sites and operators",
  "the tests build a single window and compare a few numbers.",
  ["evoMPS/mps_sandwich.py", "evoMPS/mps_uniform.py"],
  [("window state", "evoMPS/mps_sandwich.py:update, restore_CF, calc_l, calc_r"), ("bulks", "evoMPS/mps_sandwich.py:get_A, get_l, get_r, grow_left, grow_right"),
   ("overlaps", "evoMPS/mps_sandwich.py:overlap, overlap_tangent, from_tensors")],
  ["window and bulk tensors and environments after every operation, returned values and arrays"],
  "contraction of the stored tensors with the exact fixed points of both bulks, and mixed transfer matrices for overlaps",
  tech="runtime monitoring: every update, growth and query compared with dense contractions of the infinite state")

P("P23", "Windows in infinite chains evolve by the projected Schrodinger equation",
  "One step moves the infinite state along the best tangent direction within the window: energies are those of the stored state, "
  "the vector is the metric projection of the Hamiltonian's action including every term crossing the edges and the bulk energy "
  "fields, and its reported norm is true. Steps have the order promised, real time conserves and imaginary time lowers the energy, "
  "enlarged bonds add the best missing directions, and go() records what happened even as the window grows.",
  ["inputs", "histories"],
  "all pairs of bulks, Hamiltonians of range two and three given as arrays or functions, window lengths, bond dimensions and step counts",
  "the tests compare one window against one short finite chain.",
  ["evoMPS/tdvp_sandwich.py", "evoMPS/tdvp_gen.py"],
  [("energies", "evoMPS/tdvp_sandwich.py:calc_C, calc_K, calc_K_l"), ("projection", "evoMPS/tdvp_sandwich.py:calc_B, calc_B_centre, take_step, take_step_RK4"),
   ("loop", "evoMPS/tdvp_sandwich.py:go"), ("growth", "evoMPS/tdvp_sandwich.py:grow_left, grow_right, from_mps")],
  ["tensors before and after every projection and step, tangent vectors, energies, files and rows written by go()"],
  "the window as a vector in the boundary bases of the two bulks with all crossing Hamiltonian terms, projected numerically; reference integration with small steps",
  tech="runtime monitoring: every projection, step, expansion and recorded row compared with a dense reference of the embedded window")
P("P24", "Saved states load back and interrupted runs continue unchanged",
  "A state saved at any point of a history and loaded into the same or another object, whatever its gauge, bond dimensions, previous "
  "contents or file kind, is the same physical state with consistent environments, growth counters and user data, and evolving it "
  "further gives what the uninterrupted run gives. Saving and exporting change nothing, snapshots stay as they were while the object "
  "moves on, files of other dimensions are enlarged, truncated or embedded only on request and otherwise refused.",
  ["histories", "inputs"],
  "all states, sizes, steps before and after saving, file kinds and combinations of the resizing options",
  "no test saves or loads anything.",
  ["evoMPS/mps_gen.py", "evoMPS/tdvp_uniform.py", "evoMPS/mps_sandwich.py", "evoMPS/tdvp_sandwich.py"],
  [("finite", "evoMPS/mps_gen.py:save_state, load_state"), ("uniform", "evoMPS/tdvp_uniform.py:export_state, import_state, save_state, load_state, from_file"),
   ("windows", "evoMPS/mps_sandwich.py:save_state, load_state, from_file")],
  ["tensors of source and target before and after every save, load, import and step"],
  "dense state vectors, reduced density matrices or mixed transfer matrices of the tensors before saving, and the uninterrupted run",
  tech="runtime monitoring: every save and load in random histories compared with the state and the run it interrupts")
