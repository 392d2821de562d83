prop("C03", "Finite-difference coefficients give the requested accuracy order",
     "For every derivative operator (centered first and second, mixed, upwind and downwind first derivatives, Kreiss-Oliger dissipation) and every even accuracy order, the stencil's points and coefficients reproduce the derivative of every polynomial up to the operator's formal order exactly, and not of the next one, on the right points and in the right directions. Kreiss-Oliger stencils are the documented power of the second-difference operator.",
     ["inputs", "configurations"],
     "every derivative operator and direction x every even order x every polynomial up to the formal order (and the first one beyond)",
     "Doctests freeze a few coefficient lists at orders 2-4; accuracy at the other orders, on other operators and directions is never tested.",
     ["nrpy/finite_difference.py"],
     [("compute_fdcoeffs_fdstencl / setup_FD_matrix__return_inverse_lowlevel", "nrpy/finite_difference.py")],
     "property-based testing: stencils applied in exact rational arithmetic to random polynomials against their analytic derivative",
     EXP + "Exact rational arithmetic: no tolerance. Orders up to 12 (quick) and 16 (thorough).")

prop("C04", "Finite-difference kernels compute the differentiated expression",
     "For every set of registered gridfunctions and every expression in their values, centered, mixed, upwinded and dissipation derivatives, the generated kernel (inlined or as finite-difference functions, scalar or SIMD, with or without CSE) compiles, reads only allocated stencil points of the right gridfunction and stores to each output the expression with derivatives replaced by their finite-difference values at that point. Upwinding follows the sign of the control vector at each point.",
     ["inputs", "programs", "configurations"],
     "every expression over gridfunctions and their derivatives x accuracy order x code-generation options x grid data",
     "Doctests compare a couple of emitted kernels as text, and the example projects are only compiled, never compared with a reference evaluation.",
     ["nrpy/finite_difference.py", "nrpy/c_codegen.py", "nrpy/grid.py", "nrpy/helpers/simd.py"],
     [("gridfunction_management_and_FD_codegen", "nrpy/c_codegen.py"), ("FDFunctions / read_gfs_from_memory / proto_FD_operators_to_sympy_expressions", "nrpy/finite_difference.py")],
     "property-based differential testing: random gridfunction expressions compiled and run over random grid data against an independent stencil evaluator",
     EXP + "The reference stencils are solved independently from the Taylor conditions (see C03).")

prop("C05", "Expression preprocessing and rewriting preserves value",
     "Common-subexpression preprocessing and postprocessing, expression-tree traversal, modification and reconstruction, and replacement of rational constants never change the value of an expression: substituting the returned definitions back gives an expression equal to the original at every point, each temporary is defined before it is used, and inputs are not modified.",
     ["inputs", "histories"],
     "every expression list x preprocessing options x sequence of tree edits and reconstructions",
     "Doctests show three hand-picked factorisations; no test evaluates a preprocessed expression.",
     ["nrpy/helpers/cse_preprocess_postprocess.py", "nrpy/helpers/expr_tree.py"],
     [("cse_preprocess / cse_postprocess", "nrpy/helpers/cse_preprocess_postprocess.py"), ("ExprTree", "nrpy/helpers/expr_tree.py")],
     "property-based metamorphic testing: back-substitution evaluated at random points in 40-digit arithmetic; random edit histories on expression trees against a model",
     EXP + "Value equality is decided at random points.")

prop("C06", "Indexed expressions carry exactly the declared symmetries; inverses invert",
     "For every rank, dimension, name, symmetry string and suppressed-derivative axes, declared indexed expressions have the requested shape, each component is the canonical symbol with the right sign (zero exactly where antisymmetry or a suppressed axis forces it), and rows never alias. Matrix inverters return the exact inverse and determinant of every invertible matrix and reject singular ones; Levi-Civita objects are totally antisymmetric with the documented weight.",
     ["inputs", "configurations"],
     "every rank 1-4, dimension, (anti)symmetry combination, derivative name, symmetry axes; every rational matrix 2x2 to 4x4",
     "Doctests spot-check a handful of rank/symmetry combinations and one matrix each.",
     ["nrpy/indexedexp.py"],
     [("declare_indexedexp / symmetrize / apply_symmetry_condition_to_derivatives / matrix inverters", "nrpy/indexedexp.py")],
     "property-based testing against an independent index-permutation model; exact rational matrix arithmetic",
     EXP)

prop("C07", "Reference-metric quantities are flat space in the stated coordinates",
     "In every coordinate system, for every choice of its parameters and every point of the grid and its ghost zones, the metric, its inverse, determinant, scale factors, rescalings, connection coefficients, unit vectors, Jacobians and all their derivatives are those of flat space pulled back through the coordinate map; spherical coordinates and the Cartesian-to-grid map denote the same point. Precomputed tables give identical values when substituted, and the C code that allocates, fills and reads them is memory-safe and correct.",
     ["inputs", "configurations"],
     "every supported coordinate system (including the even-power v2n families) x parameter values x points, with and without precompute",
     "Trusted-value tests evaluate each expression at one fixed point of the unit cube and one parameter set (v2n only with n=2), and freeze whatever the code computed then.",
     ["nrpy/reference_metric.py", "nrpy/infrastructures/BHaH/rfm_precompute.py"],
     [("ReferenceMetric", "nrpy/reference_metric.py"), ("ReferenceMetricPrecompute", "nrpy/infrastructures/BHaH/rfm_precompute.py")],
     "property-based differential testing: every attribute evaluated at random points and parameters against truncated-Taylor arithmetic on independently written coordinate maps; generated table code compiled with sanitizers",
     EXP + "Known finding: SinhSymTP's Cartesian-to-grid map (recorded, matched only when it returns exactly the wrong value it returns today).")

prop("C08", "Basis transforms and generated grid routines agree with the geometry",
     "In every coordinate system, transforming vectors, covectors and tensors between the grid and Cartesian bases multiplies by the exact Jacobian of the coordinate map, with no symmetry assumed of the components. The generated C routines that size grids, place points, convert between grid and Cartesian coordinates relative to the chosen center, find the nearest point, dispatch on the grid's coordinate system and choose the timestep compute what they document for every grid configuration.",
     ["inputs", "configurations", "programs"],
     "every coordinate system x parameters x points x tensor components; every grid size, physical size, hole radius, origin, convergence factor, resolution override, precision and mix of grids",
     "Transformations are exercised only through a few downstream trusted values, and the grid routines are only compiled in example projects.",
     ["nrpy/helpers/jacobians.py", "nrpy/infrastructures/BHaH/xx_tofrom_Cart.py", "nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py", "nrpy/infrastructures/BHaH/rfm_wrapper_functions.py"],
     [("basis_transform_*", "nrpy/helpers/jacobians.py"), ("numerical_grid_params_Nxx_dxx_xx, cfl_limited_timestep", "nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py"), ("Cart_to_xx / xx_to_Cart", "nrpy/infrastructures/BHaH/xx_tofrom_Cart.py")],
     "property-based differential testing against independently differentiated coordinate maps; generated C compiled with sanitizers and run on random grid configurations",
     EXP + "SinhSymTP's inverse map is excluded here (finding recorded under C07).")

prop("C09", "Parameters keep the last value given and reach the C code with it",
     "Over every sequence of registrations, look-ups, updates and default adjustments, a parameter has the value last given to it, a repeated registration of a name changes nothing, and invalid requests are rejected without effect. In the generated C code every code parameter with a default is set to exactly that default in the right struct on every grid, parameters without one are left untouched, and functions that include the parameter headers (plain, non-pointer and SIMD) see the struct's current value.",
     ["histories", "inputs", "configurations"],
     "every operation sequence on the registries; every set of code parameters (REAL, int, bool, char[], arrays, #define; common or per grid; with or without default), default and adjusted value, number of grids and precision",
     "Doctests register one fixed set and compare text; the emitted assignments are never executed.",
     ["nrpy/params.py", "nrpy/infrastructures/BHaH/CodeParameters.py", "nrpy/infrastructures/BHaH/BHaH_defines_h.py"],
     [("register_param/parval_from_str/register_CodeParameter(s)/adjust_CodeParam_default", "nrpy/params.py"), ("register_CFunctions_params_commondata_struct_set_to_default / write_CodeParameters_h_files", "nrpy/infrastructures/BHaH/CodeParameters.py")],
     "stateful property-based testing of the registries against a model; generated C compiled with sanitizers and its structs and headers read back",
     EXP + "Defaults are printable text/finite numbers.")

prop("C10", "Parameter files and command lines set exactly what they say",
     "For every set of code parameters, the generated default parameter file is accepted by the generated parser and gives every parameter its default; every well-formed parameter file and command line sets exactly the named parameters to the given values, command-line values winning, and leaves the others untouched. Every malformed name, number, boolean, string length, array size, duplicate or argument count is rejected with a message and a non-zero exit; no input makes the parser access memory out of bounds.",
     ["inputs", "programs"],
     "every set of common code parameters x every parameter file (including arbitrary bytes) x every command line",
     "The only test compares one generated default parameter file with expected text; the parser is compiled but never run.",
     ["nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py"],
     [("register_CFunction_cmdline_input_and_parfile_parser / generate_default_parfile", "nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py")],
     "property-based testing: structured parameter files and command lines against a reference model, and mutation fuzzing under AddressSanitizer/UBSan, on parsers generated for random parameter sets",
     EXP + "Lines under 1000 characters; strings without quotes and backslashes.")

prop("C11", "Every gridfunction has its own slot, metadata and memory location",
     "Over every sequence of registrations of scalars and (anti)symmetric tensors in any group, exactly the independent components are registered once, the first registration of a name wins and invalid names and groups are rejected. In the generated C headers each group's gridfunctions are numbered 0 to N-1 without gaps or collisions, each with its own value at infinity, wave speed and parity type, and every accessor (BHaH, ETLegacy, CarpetX; scalar or SIMD) addresses that gridfunction at the requested offset. The numbering does not depend on the interpreter run.",
     ["histories", "inputs", "configurations"],
     "every registration sequence x infrastructure x group x rank/symmetry/dimension x offsets x hash seed",
     "Doctests register one or two gridfunctions and compare text; the emitted tables are never read back.",
     ["nrpy/grid.py", "nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py", "nrpy/infrastructures/BHaH/BHaH_defines_h.py"],
     [("register_gridfunctions*, BHaHGridFunction.gridfunction_defines, set_parity_types, access_gf", "nrpy/grid.py")],
     "stateful property-based testing: random registration histories against a model; generated headers and accessors compiled and read back",
     EXP + "Names distinct up to case.")

prop("C12", "Time integrators have their stated order and the generated code performs them",
     "Every Runge-Kutta table satisfies all order conditions up to its stated order and no further (adaptive tables: high- and low-order rows), so one step agrees with the exact solution of every smooth system through that order; Adams-Bashforth rows integrate polynomials of their order exactly. The generated BHaH and superB timestepping code for every method allocates and frees exactly what it uses, evaluates each stage at the right time on the right data with boundaries and grid synchronisation applied to every intermediate and final state, and advances state, step counter and time by exactly one step of that method.",
     ["inputs", "configurations", "programs"],
     "every method x every ODE system (random polynomial systems, all rooted trees) x grids, gridfunction counts, precision, step number and size",
     "One doctest checks four low-order methods on scalar ODEs (which cannot see order conditions for systems), and the generated stepping code is only compared as text for RK4.",
     ["nrpy/infrastructures/BHaH/MoLtimestepping/RK_Butcher_Table_Dictionary.py", "nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py", "nrpy/infrastructures/superB/MoL.py"],
     [("generate_Butcher_tables", "nrpy/infrastructures/BHaH/MoLtimestepping/RK_Butcher_Table_Dictionary.py"), ("register_CFunction_MoL_step_forward_in_time", "nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py"), ("register_CFunction_MoL_step_forward_in_time", "nrpy/infrastructures/superB/MoL.py")],
     "property-based testing: exact Taylor expansion of random polynomial systems and exhaustive rooted trees; generated stepping code compiled with sanitizers and compared with textbook Runge-Kutta on random data",
     EXP + "Coefficients are compared to 1e-13 because the published Dormand-Prince 8 coefficients are 18-digit rationals.")

prop("C13", "Boundary conditions fill every ghost point with the right value",
     "On every curvilinear grid, the generated boundary routines leave interior points unchanged and fill every ghost point: a ghost that coincides with another grid point across the origin, an axis or a periodic seam receives that point's value times the sign with which each vector and tensor component's basis direction flips, and every other ghost receives the quadratic extrapolation along an outward direction, filled from the inside out. The radiation condition sets each outer right-hand side to -c(d_r f + (f-f_inf)/r) + k/r^3 with k fixed by the neighbouring inner point and derivatives of the requested order, and no grid size, precision or thread count makes the routines read or write out of bounds.",
     ["inputs", "configurations", "programs"],
     "every coordinate system x grid size, ghost width, coordinate parameters, precision, gridfunction set and field data",
     "Doctests compare generated text; the boundary routines are never run on data, let alone on small, odd or single-precision grids.",
     ["nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py", "nrpy/reference_metric.py"],
     [("register_CFunction_bcstruct_set_up, apply_bcs_inner_only, apply_bcs_outerextrap_and_inner, apply_bcs_outerradiation_and_inner", "nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py")],
     "property-based testing: generated routines compiled with sanitizers and run on random data with NaN ghosts against integer index maps and exact polynomial radiation right-hand sides",
     EXP + "Grids that the documentation allows: even number of points around an axis, at least three points across an outer direction, ghosts of punctured/wedge grids away from the origin and axis.")

prop("C14", "Caches, worker processes and conditional writes never change what is generated",
     "Generated projects are byte-for-byte the same with a cold or warm cache, serially or with parallel code generation, under every hash seed and worker schedule, and an error in a worker is never lost. The on-disk cache only ever returns what was stored under that key: a process killed or failing at any point of a cache write, or processes using the cache at the same time, never break or change a later run. A conditional file update leaves exactly the new content, and does not touch the file when nothing changed.",
     ["schedules", "crash_points", "histories", "configurations"],
     "every set of registered tasks x schedule x hash seed; every cache history with interruptions at any byte; every history of conditional updates",
     "Doctests store one cache entry and update one file; nothing interrupts a write, runs workers concurrently or compares serial with parallel output.",
     ["nrpy/helpers/cached_functions.py", "nrpy/helpers/parallel_codegen.py", "nrpy/helpers/conditional_file_updater.py", "nrpy/helpers/generic.py"],
     [("write_cached, read_cached, cached_simplify", "nrpy/helpers/cached_functions.py"), ("do_parallel_codegen, unpack_NRPy_environment_dict", "nrpy/helpers/parallel_codegen.py"), ("ConditionalFileUpdater", "nrpy/helpers/conditional_file_updater.py"), ("clang_format", "nrpy/helpers/generic.py")],
     "stateful property-based testing with fault injection (write cut off at any byte), concurrent processes, differential runs (serial/parallel, cold/warm, hash seeds) of random task sets and example projects",
     EXP + "Parallel tasks register disjoint names.")

prop("C15", "Loops visit exactly the requested points; slice diagnostics output the nearest",
     "For every bounds, increments, tiling, region and pragma choice, a generated loop nest runs its body exactly once for every requested index tuple and no other, under any thread count, with the coordinates and read-only arrays it offers correct at each point (BHaH, ETLegacy and CarpetX loops). The generated slice diagnostics output, once each, exactly the interior grid points nearest to the requested axis or plane with their physical coordinates and the values of the requested quantities, for every coordinate system and grid size, without accessing memory out of bounds.",
     ["inputs", "configurations", "programs"],
     "every loop depth, bound, increment, tile, region, SIMD and OpenMP option; every coordinate system x slice x grid size and parameters x output quantities",
     "Doctests compare generated loop text for a few options; the loops and slice routines are never executed on odd, small or unusual grids.",
     ["nrpy/helpers/loop.py", "nrpy/infrastructures/BHaH/simple_loop.py", "nrpy/infrastructures/ETLegacy/simple_loop.py", "nrpy/infrastructures/CarpetX/simple_loop.py", "nrpy/infrastructures/BHaH/diagnostics/output_0d_1d_2d_nearest_gridpoint_slices.py"],
     [("loop, loop1D", "nrpy/helpers/loop.py"), ("simple_loop, max_numpts__i012_pts__numpts_2D, append_1D_loop_body", "nrpy/infrastructures/BHaH/simple_loop.py"), ("register_CFunction_diagnostics_nearest_*", "nrpy/infrastructures/BHaH/diagnostics/output_0d_1d_2d_nearest_gridpoint_slices.py")],
     "property-based testing: generated loops and slice routines compiled with sanitizers and run on random grids against index-set and geometric reference models",
     EXP + "Tile sizes are multiples of the increment; slice grids have an even number of points around the axis and symmetric outer boundaries.")

prop("C16", "BSSN equations are Einstein's equations for every option and coordinate system",
     "For every spatial metric, extrinsic curvature, lapse, shift, stress-energy and coordinate system, with every choice of conformal factor, precomputation, Ricci storage and matter terms, NRPy's BSSN constraints equal the ADM constraints, its right-hand sides equal the ADM time derivatives of the BSSN variables (up to the standard constraint additions), and its gauge conditions equal their stated equations. Conversions between ADM, BSSN and 4-metric variables, with derivatives and matter projections, agree with their definitions, the registered asymptotic values are those of flat space, and none of this depends on which equations were requested before.",
     ["inputs", "configurations", "histories"],
     "every smooth ADM state (random Taylor jets) x 17 coordinate systems and parameters x conformal factor x options x lapse and shift condition x request history",
     "Trusted values pin numbers produced by the code itself at one point for the default conformal factor and six coordinate systems; no test compares with Einstein's equations.",
     ["nrpy/equations/general_relativity/BSSN_quantities.py", "nrpy/equations/general_relativity/BSSN_RHSs.py", "nrpy/equations/general_relativity/BSSN_gauge_RHSs.py", "nrpy/equations/general_relativity/BSSN_constraints.py", "nrpy/equations/general_relativity/T4munu.py", "nrpy/equations/general_relativity/ADM_to_BSSN.py", "nrpy/equations/general_relativity/BSSN_to_ADM.py", "nrpy/equations/general_relativity/g4munu_conversions.py"],
     [("BSSNQuantities, BSSNRHSs, BSSN_gauge_RHSs, BSSNconstraints", "nrpy/equations/general_relativity"), ("ADM_to_BSSN, BSSN_to_ADM, g4munu_conversions, T4munu", "nrpy/equations/general_relativity")],
     "property-based testing: random ADM states as Taylor jets, differential against an independent 3+1 implementation of Einstein's equations evaluated in 40-digit arithmetic",
     EXP + "States satisfy the algebraic BSSN constraints and points are away from coordinate singularities.")

prop("C17", "The generated BSSN solver evaluates Einstein's equations on grid data",
     "For every coordinate system and combination of solver options (conformal factor, precomputation, stored Ricci tensor, SIMD, matter, finite-difference functions and order, gauge, Kreiss-Oliger and curvature-aware dissipation, Hamiltonian damping, slow-start lapse), the generated C functions write at every interior point and nowhere else the right-hand sides, Ricci tensor and constraints of Einstein's equations for the data on the grid, with upwinding along the shift. Enforcing the determinant constraint changes only the conformal metric, by the exact rescaling. The generated initial-data routine turns ADM data in a Cartesian or spherical basis into the BSSN variables of those data on every grid, including offset grids, with connection variables from finite differences of the requested order and all ghost points filled.",
     ["inputs", "configurations", "programs"],
     "every coordinate system and parameters x solver options x random smooth or rough grid data; every ADM field in both bases x grid origin x number of grids",
     "The repository only checks trusted numerical values of a few expressions; the generated functions are never compiled and run in its tests.",
     ["nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py", "nrpy/infrastructures/BHaH/general_relativity/ADM_Initial_Data_Reader__BSSN_Converter.py", "nrpy/infrastructures/BHaH/rfm_precompute.py", "nrpy/c_codegen.py"],
     [("register_CFunction_rhs_eval, Ricci_eval, constraints, enforce_detgammabar_equals_detgammahat, cahdprefactor", "nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py"), ("initial_data_reader__convert_ADM", "nrpy/infrastructures/BHaH/general_relativity/ADM_Initial_Data_Reader__BSSN_Converter.py")],
     "property-based testing: generated solvers compiled with sanitizers and run on Taylor-polynomial and rough data, differential against an independent 3+1 implementation and finite-difference model",
     EXP + "SIMD only where every function has a SIMD form (W, no fractional powers); dissipation of B^i only for second-order shifts.")

prop("C18", "Exact initial data, boosts, psi4 and wave modes are what they claim",
     "For every parameter value and point, the exact black-hole initial data satisfy the vacuum constraints with the stated mass and spin, are stationary with their own lapse and shift where they have one, and the standard gauge is exp(-2 phi) with zero shift; the generated C function returns the same data. Lorentz boosts are isometries of flat space that transform vectors, covectors and tensors consistently. The psi4 expression and its generated C code equal the contraction of the vacuum curvature with the stated tetrad, which is null and orthonormal, in every coordinate system; spin-weighted harmonics and the generated mode decomposition equal their definitions.",
     ["inputs", "configurations", "programs"],
     "masses, spins, positions and points; boost velocities and tensors; boosted rotated Kerr and arbitrary plane-wave spacetimes x coordinate systems x conformal factors; (s, l, m) and angles; grids and extraction radii",
     "Trusted values only freeze the numbers the code produced at one point; nothing compares with Einstein's equations or executes the generated code.",
     ["nrpy/equations/general_relativity/InitialData_Spherical.py", "nrpy/equations/general_relativity/InitialData_Cartesian.py", "nrpy/equations/general_relativity/LorentzBoost.py", "nrpy/equations/general_relativity/psi4.py", "nrpy/equations/general_relativity/psi4_tetrads.py", "nrpy/equations/special_functions/spin_weighted_spherical_harmonics.py", "nrpy/infrastructures/BHaH/general_relativity/psi4_C_codegen_library.py", "nrpy/infrastructures/BHaH/special_functions/spin_weight_minus2_spherical_harmonics.py"],
     [("InitialData_Spherical, InitialData_Cartesian, LorentzBoost, Psi4, Psi4Tetrads", "nrpy/equations/general_relativity"), ("register_CFunction_psi4*, psi4_spinweightm2_decomposition_on_sphlike_grids", "nrpy/infrastructures/BHaH/general_relativity"), ("Y", "nrpy/equations/special_functions/spin_weighted_spherical_harmonics.py")],
     "property-based testing: random parameters and exact vacuum spacetimes as Taylor jets against independent curvature, Lorentz and Wigner-d implementations; generated C compiled and run",
     EXP + "psi4 is compared in vacuum, where it equals the Weyl scalar; points away from punctures and coordinate singularities.")

prop("C19", "Wave and puncture (elliptic) equations, solutions and solvers are correct",
     "In every coordinate system the scalar-wave right-hand sides are the wave equation and the hyperbolic-relaxation right-hand sides and residual are the Hamiltonian constraint of conformally flat puncture data with its background conformal factor and Bowen-York source; the plane-wave and spherical-Gaussian exact solutions satisfy the wave equation. The generated C solvers (right-hand sides, residual, Kreiss-Oliger dissipation, initial data and background fields, variable wavespeed, volume-weighted norm, stop condition) evaluate exactly these at every interior point for every option, and leave their inputs and all other points unchanged.",
     ["inputs", "configurations", "programs"],
     "every coordinate system and parameters x field x puncture masses, momenta, spins, separation x solver options (precomputation, SIMD, precision, order, dissipation, threads)",
     "Trusted values freeze the numbers the expressions gave at one point in a few coordinate systems; the generated solvers are never run.",
     ["nrpy/equations/wave_equation/WaveEquation_RHSs.py", "nrpy/equations/wave_equation/WaveEquationCurvilinear_RHSs.py", "nrpy/equations/wave_equation/WaveEquation_Solutions_InitialData.py", "nrpy/equations/nrpyelliptic/ConformallyFlat_RHSs.py", "nrpy/equations/nrpyelliptic/ConformallyFlat_SourceTerms.py", "nrpy/infrastructures/BHaH/wave_equation/wave_equation_C_codegen_library.py", "nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py"],
     [("WaveEquation_RHSs, WaveEquationCurvilinear_RHSs, WaveEquation_solution_Cartesian", "nrpy/equations/wave_equation"), ("HyperbolicRelaxationCurvilinearRHSs, compute_psi_background_and_ADD_times_AUU", "nrpy/equations/nrpyelliptic"), ("register_CFunction_*", "nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py")],
     "property-based testing: random fields as Taylor polynomials against an independent Laplacian and closed-form Bowen-York data; generated C compiled with sanitizers and run",
     EXP + "Points away from punctures and coordinate singularities.")

prop("C20", "Relativistic hydrodynamics equations, Riemann solver and stars are correct",
     "For every spacetime point, perfect fluid and coordinate system, the GRHD conserved variables and fluxes (plain and rescaled) are the projections of T^{mu nu}, and the source and connection terms are those for which the equations express conservation of rest mass, electron fraction, energy and momentum. Characteristic speeds are the sound-cone speeds, cmin and cmax their bounds including zero, and the HLL flux is the HLL average, equal to the physical flux for equal states; the branch-free min, max and comparisons return what their names say. The generated TOV solver and interpolator return the star and the exterior Schwarzschild field of the given polytrope.",
     ["inputs", "configurations", "programs"],
     "ADM states and fluids x 17 coordinate systems x conformal factor x precomputation; pairs of fluid states, metrics and directions; polytropes and interpolation points",
     "Trusted values freeze numbers the code produced at one point; no test compares with conservation laws or runs the star solver.",
     ["nrpy/equations/grhd/GRHD_equations.py", "nrpy/equations/grhd/HLL_fluxes.py", "nrpy/equations/grhd/characteristic_speeds.py", "nrpy/equations/grhd/Min_Max_and_Piecewise_Expressions.py", "nrpy/equations/tov/TOV_equations.py", "nrpy/infrastructures/BHaH/general_relativity/TOVola/TOVola_solve.py", "nrpy/infrastructures/BHaH/general_relativity/TOVola/TOVola_interp.py"],
     [("GRHD_Equations, calculate_HLL_fluxes, find_cmax_cmin", "nrpy/equations/grhd"), ("TOV_Equations", "nrpy/equations/tov"), ("TOVola_solve, TOVola_interp", "nrpy/infrastructures/BHaH/general_relativity/TOVola")],
     "property-based testing: random spacetimes and fluids against independent 4-dimensional conservation laws, sound cones and an enthalpy-formulation star integration",
     EXP + "Polytropes with Gamma between 1.7 and 2.2 below the maximum mass.")

prop("C21", "Generated projects build, run, converge, and restart exactly after a crash",
     "For every choice of coordinate systems, integrator, finite-difference order and code-generation options, a generated wave-equation project builds with its own Makefile, runs without memory errors, starts from the exact solution and converges to it at the expected order as the convergence factor grows. Over every history of checkpoint writes, crashes at any byte of a write, full disks and restarts, reading a checkpoint restores bit for bit the last complete one written for that name (all grids, parameters, time, horizon data), a truncated file is refused, and writing one changes no evolved data. A run killed after a checkpoint and restarted, with any number of threads, outputs the same evolved data as an uninterrupted one.",
     ["configurations", "programs", "crash_points", "histories"],
     "project options (systems, sizes, orders, integrators, SIMD, precomputation, dissipation, boundary condition, parameter file, threads); histories of writes, faults and reads; kill times",
     "No test of the repository builds or runs a generated project, and none interrupts one.",
     ["nrpy/infrastructures/BHaH/checkpointing.py", "nrpy/infrastructures/BHaH/main_c.py", "nrpy/infrastructures/BHaH/Makefile_helpers.py", "nrpy/infrastructures/BHaH/griddata_commondata.py", "nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py", "nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py", "nrpy/infrastructures/BHaH/wave_equation/wave_equation_C_codegen_library.py", "nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py"],
     [("register_CFunctions (read_checkpoint, write_checkpoint)", "nrpy/infrastructures/BHaH/checkpointing.py"), ("register_CFunction_main_c", "nrpy/infrastructures/BHaH/main_c.py"), ("output_CFunctions_function_prototypes_and_construct_Makefile", "nrpy/infrastructures/BHaH/Makefile_helpers.py")],
     "property-based testing: random projects generated, built, run, killed and restarted; stateful histories of checkpoint writes and reads with injected write faults against a model of the last complete checkpoint",
     EXP + "SIMD projects have Nxx0 a multiple of 8; restarting repeats output written since the checkpoint.")

prop("C22", "The horizon expansion and symbolic rotations agree with the geometry",
     "For every metric, extrinsic curvature and surface r = h(theta, phi), the expansion function, with or without precomputation, equals D_i s^i - K + s^i s^j K_ij for the outgoing unit normal of the surface, independent of radial derivatives of h; so it vanishes on black-hole horizons and has the right sign on either side. Rotating a vector or rank-2 tensor about any axis (of any length) by any angle, symbolic or numeric, gives the right-handed rotation, leaves the arguments unchanged and rejects wrong shapes.",
     ["inputs"],
     "metrics, curvatures and surfaces at random points; Schwarzschild slices; vectors, matrices, axes and angles",
     "The tests compare with numbers the code produced once and rotate about coordinate axes only.",
     ["nrpy/equations/general_relativity/bhahaha/ExpansionFunctionTheta.py", "nrpy/equations/quaternion_rotations/tensor_rotation.py"],
     [("ExpansionFunctionThetaClass", "nrpy/equations/general_relativity/bhahaha/ExpansionFunctionTheta.py"), ("rotate", "nrpy/equations/quaternion_rotations/tensor_rotation.py")],
     "property-based testing: random geometries against a numerical divergence at 60 digits, exact horizons, and Rodrigues' matrix",
     EXP + "Surface points away from the poles.")

prop("C23", "Generated Einstein Toolkit thorns are consistent and evolve Einstein's equations",
     "For every set of registered gridfunctions, functions and parameters, the interface, parameter, schedule and make files of an ETLegacy or CarpetX thorn declare exactly what its sources contain and use, with the right parities, boundary-condition and time-integration registrations, so the thorn compiles against its own ccl files. For every combination of options (conformal factor, SIMD, matter, order, gauge, dissipation, damping, slow-start lapse), running the schedule evaluates the right-hand sides and constraints of Einstein's equations at interior points in a valid order, and the conversions ADM to BSSN and back, raising of T_{mu nu}, lapse floor and determinant constraint are exact at every point. Functions access only the variables their schedule entry declares and write nothing outside their region.",
     ["inputs", "configurations", "programs"],
     "random gridfunction/function/parameter registrations; thorn options x random states, grid shapes, ghost zones, padding and refinement levels",
     "The repository's tests generate at most trusted values of expressions for one option set; no thorn is ever compiled or run.",
     ["nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py", "nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py", "nrpy/infrastructures/ETLegacy/schedule_ccl.py", "nrpy/infrastructures/CarpetX/interface_ccl.py", "nrpy/infrastructures/ETLegacy/param_ccl.py", "nrpy/infrastructures/ETLegacy/Symmetry_registration.py", "nrpy/infrastructures/ETLegacy/boundary_conditions.py", "nrpy/infrastructures/CarpetX/boundary_conditions.py"],
     [("construct_interface_ccl, construct_schedule_ccl, construct_param_ccl, output_CFunctions_and_construct_make_code_defn", "nrpy/infrastructures/ETLegacy and CarpetX"), ("register_CFunction_rhs_eval, Ricci_eval, BSSN_constraints, ADM_to_BSSN, BSSN_to_ADM, T4DD_to_T4UU, floor_the_lapse, enforce_detgammahat_constraint", "nrpy/infrastructures/{ETLegacy,CarpetX}/general_relativity")],
     "property-based testing: random thorns compiled with sanitizers against a small model of Cactus built from the thorn's own ccl files, run on random states against an independent 3+1 implementation",
     EXP + "Hamiltonian damping and slow-start lapse only for ETLegacy and SIMD only for ETLegacy (CarpetX rejects or does not finish them); a SIMD loop may write up to one vector past the interior in the first direction.")

prop("C24", "Two-puncture binary initial data solve the constraints as requested",
     "For every binary (mass ratio, separation, momenta, spins, bare or target masses, lapse choice, resolution), the TwoPunctures solver returns conformally flat initial data with the Bowen-York extrinsic curvature of exactly the requested momenta and spins at the requested positions in the grid frame, whose conformal factor solves the Hamiltonian constraint, whose puncture masses are those requested and whose total mass and angular momentum are those of the data. Its Jacobian is the derivative of its residual, its spectral transforms and interpolation are exact on what they represent. Quasicircular momenta equal the post-Newtonian values with each hole's spin paired with its own mass, and library entries give the tabulated binary.",
     ["inputs", "configurations"],
     "random binaries, resolutions, lapse options and evaluation points; random spectral data and directions; random spins and mass ratios; random library requests",
     "The repository's tests never run the solver: they only generate its source.",
     ["nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_solve.py", "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py", "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/FuncAndJacobian.py", "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/Equations.py", "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/CoordTransf.py", "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_utilities.py", "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/ID_persist_struct.py", "nrpy/infrastructures/BHaH/general_relativity/NRPyPN_quasicircular_momenta.py", "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/bbh_parfile_library.py"],
     [("TP_solve, TP_Interp, F_of_v, J_times_dv", "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures"), ("register_CFunction_NRPyPN_quasicircular_momenta", "nrpy/infrastructures/BHaH/general_relativity/NRPyPN_quasicircular_momenta.py")],
     "property-based testing: random binaries solved and compared with the closed-form Bowen-York curvature and a finite-difference Hamiltonian constraint; random spectral data against exact transforms and finite-difference Jacobians; momenta against an independent evaluation of the post-Newtonian formulas and their leading spin-orbit terms",
     EXP + "Separations 3-8, mass ratios up to 2.5 and spins up to 0.3 at 26x26x10 points, where the solution is resolved; points at least 0.6 from a puncture.")

prop("C25", "Registered C functions become exactly the requested program or library",
     "For every set of registered functions, subdirectories, compiler, flags, libraries, include directories and project kind (executable, static or shared library), the written project contains each function once with its attributes, builds with its own Makefile using the requested compiler and flags, computes what the registered bodies say, rebuilds after a function or parameter changes, is cleaned completely by make clean, and generating it twice changes nothing; missing or duplicate registrations are rejected. Generated headers declare each registered item once. The expression validators accept exactly equal expressions and trusted values, reject differences of any visible size, missing entries and NaN, and do not depend on hash order.",
     ["inputs", "programs", "histories"],
     "random projects (functions calling each other, nested subdirectories, prefixes, C and C++), random edits between two generations; identities plus perturbations; edited sets of trusted values",
     "The repository's tests print one generated function and one Makefile; they never build a project and never show a validator something false beyond one example.",
     ["nrpy/c_function.py", "nrpy/infrastructures/BHaH/Makefile_helpers.py", "nrpy/infrastructures/BHaH/BHaH_defines_h.py", "nrpy/helpers/generic.py", "nrpy/validate_expressions/validate_expressions.py", "nrpy/helpers/functional.py"],
     [("CFunction, register_CFunction", "nrpy/c_function.py"), ("output_CFunctions_function_prototypes_and_construct_Makefile", "nrpy/infrastructures/BHaH/Makefile_helpers.py"), ("register_BHaH_defines, output_BHaH_defines_h", "nrpy/infrastructures/BHaH/BHaH_defines_h.py"), ("check_zero, assert_equal, compare_or_generate_trusted_results", "nrpy/validate_expressions/validate_expressions.py")],
     "property-based testing: random projects generated, built with make, run and compared with a Python model of the registered functions; random identities and perturbations against the validators",
     EXP + "Built with gcc and g++ (and wrappers of them); check_zero with fixed values and assert_equal with extra entries have recorded defects.")
