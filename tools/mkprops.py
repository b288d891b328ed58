#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=(hook or None))))

# ------------------------------------------------------------------ schedules
p("T01", "Integral evaluation is thread-safe on shared inputs",
  "Any number of threads may, after initialisation, evaluate any integrals or gradients at the same time on the same shells, potentials and operators, each with its own output buffers, without a data race. Every thread gets bit for bit the result that the same call gives when run alone, whatever the interleaving.",
  ["schedules"], "all interleavings (up to commuting of independent steps) of two or three threads that call any pair/triple of integral routines on shared input objects",
  "The repository's tests run the drivers once, with one OpenMP schedule on one molecule at a time; no test enumerates interleavings or shares an outercore/gradient operator between concurrent calls.",
  ["libgrpp/outercore_integrals.c", "libgrpp/overlap_gradient.c", "libgrpp/grpp_integrals_gradient.c", "libgrpp/type1_integrals.c", "libgrpp/type2_integrals.c", "libgrpp/radial_type1_integral.c", "libgrpp/radial_type2_integral.c", "libgrpp/spherical_harmonics.c", "libgrpp/specfunc_scaled_mod_sph_bessel.c", "libgrpp/parameters.c"],
  [("libgrpp_*_integrals entry points", "libgrpp/*_integrals.c"), ("tabulated data read by all threads", "libgrpp/spherical_harmonics.c, libgrpp/specfunc_scaled_mod_sph_bessel.c")],
  [("real spherical harmonic coefficient tables", "read-only after init", "libgrpp/spherical_harmonics.c"), ("Bessel pretabulation", "read-only after init", "libgrpp/specfunc_scaled_mod_sph_bessel.c"), ("global parameters", "order and tolerances", "libgrpp/parameters.c"), ("caller's shells/potentials", "shared inputs", "libgrpp/libgrpp.h")],
  ["output matrices of every thread", "memory accesses of every thread"])
p("T02", "Concurrent initialisation is safe and performed once",
  "Several threads may call the initialisation routine at the same time, and each may start evaluating integrals as soon as its own call has returned: the tables it uses are then complete, and nobody rewrites them. After all calls have returned the library reports itself initialised, and results equal those after a single-threaded initialisation.",
  ["schedules"], "all interleavings of 2-3 threads that each initialise (and then evaluate), from the uninitialised, initialised and finalised states",
  "Both drivers call the initialisation once from one thread; no test has a second thread in it.",
  ["libgrpp/init_finalize.c", "libgrpp/spherical_harmonics.c", "libgrpp/specfunc_scaled_mod_sph_bessel.c"],
  [("libgrpp_init / libgrpp_finalize", "libgrpp/init_finalize.c"), ("create_real_spherical_harmonic_coeffs_tables", "libgrpp/spherical_harmonics.c"), ("bessel pretabulation", "libgrpp/specfunc_scaled_mod_sph_bessel.c")],
  [("initialised flag", "guards the tables", "libgrpp/init_finalize.c")],
  ["libgrpp_is_initialized()", "integral values computed by each thread after its init call"])
p("T03", "Driver results do not depend on thread count or loop scheduling",
  "The C front-end's matrices and gradients are the same whatever the number of OpenMP threads and whatever thread executes whichever iteration in whatever order. No two iterations touch the same memory without synchronisation.",
  ["schedules"], "all assignments/orders of the parallel loop's iterations to 2-3 threads for small molecules, up to commuting of independent iterations, and the access sets of every iteration pair",
  "Tests run one molecule with whatever schedule the machine gives; an iteration-order dependence of a few rare orders would pass.",
  ["test_libgrpp_c/eval_integrals.c", "test_libgrpp_c/eval_integrals_grad.c", "libgrpp/outercore_integrals.c"],
  [("omp parallel for over shell pairs", "test_libgrpp_c/eval_integrals.c, test_libgrpp_c/eval_integrals_grad.c"), ("add_block_to_matrix", "test_libgrpp_c/eval_integrals.c")],
  [("matrix accumulators", "shared by iterations", "test_libgrpp_c/eval_integrals.c")],
  ["libgrpp_c_*.txt output files", "memory accesses of every iteration"])

# ------------------------------------------------------------------ histories
p("H01", "Every call's result depends only on its arguments and the current settings",
  "The value returned by any routine is a function of its arguments and of the settings then in force: it is bit for bit the same as the first call of a fresh process, whatever calls (integrals of other kinds, sizes and centres, failed or trivial calls, settings changed and restored, objects created and deleted) came before.",
  ["histories"], "all sequences of calls, up to depth 3, over an alphabet of every public integral routine with small and large arguments, settings changes and re-initialisation",
  "Each test is one process evaluating one kind of integral in one order; no test compares a result after a different history.",
  ["libgrpp/type1_integrals.c", "libgrpp/type2_integrals.c", "libgrpp/spin_orbit_integrals.c", "libgrpp/outercore_integrals.c", "libgrpp/grpp_integrals_gradient.c", "libgrpp/nuclear_attraction.c", "libgrpp/factorial.c", "libgrpp/binomial.c", "libgrpp/specfunc_boys.c", "libgrpp/specfunc_gfun.c"],
  [("all libgrpp_*_integrals*", "libgrpp/*.c"), ("static tables", "libgrpp/binomial.c, libgrpp/factorial.c, libgrpp/spherical_harmonics.c")],
  [("static tables and caches", "must not carry state between calls", "libgrpp/*.c")],
  ["all output arrays, compared bitwise"])
p("H02", "Integral routines leave inputs untouched and fully overwrite their outputs",
  "No integral or gradient routine changes any object or array passed to it as input. It writes every element of each output block, independently of what the block contained before, and no byte outside it.",
  ["inputs", "histories"], "all integral and gradient routines x shell sizes x presence or absence of potential components x pre-filled output contents (zero, NaN, garbage)",
  "The drivers always hand in zeroed or fresh buffers and never look at their inputs again.",
  ["libgrpp/outercore_integrals.c", "libgrpp/full_grpp_integrals.c", "libgrpp/overlap_gradient.c", "libgrpp/grpp_integrals_gradient.c", "libgrpp/type1_integrals.c", "libgrpp/nuclear_attraction.c"],
  [("output initialisation", "libgrpp/*_integrals.c"), ("differentiation helpers", "libgrpp/diff_gaussian.c")],
  [("caller's shells, potentials, origins", "read-only inputs", "libgrpp/libgrpp.h")],
  ["byte image of inputs before/after", "guard zones around outputs"])
p("H03", "Objects own their data; copies and deletion are independent and leak-free",
  "A shell, potential or operator holds its own copy of the arrays it was created from, so later changes to the caller's arrays, to a copy or to the original never show through, and deleting objects in any order frees each piece exactly once and everything in the end. Copies have the same contents; shrinking drops only zero terms and never changes the represented function; the value of a potential at r is sum c r^(n-2) exp(-a r^2).",
  ["histories"], "all sequences, up to depth 4-5, of create/copy/shrink/normalise/attach/mutate-source/delete operations over a small set of objects",
  "Tests create objects once, never copy, mutate or delete in another order, and do not look for leaks or double frees.",
  ["libgrpp/shell.c", "libgrpp/potential.c", "libgrpp/grpp.c"],
  [("libgrpp_new_shell / deep_copy / shrink / mult_normcoef / delete", "libgrpp/shell.c"), ("libgrpp_new_potential / shrink / value / delete", "libgrpp/potential.c"), ("libgrpp_new_grpp / add_* / delete", "libgrpp/grpp.c")],
  [("object heap graph", "who owns what", "libgrpp/shell.c, libgrpp/potential.c, libgrpp/grpp.c")],
  ["object fields", "allocator's live blocks", "invalid accesses"])
p("H04", "Cartesian order only permutes, and a shell keeps the order it was created with",
  "The Cartesian-order setting affects only shells created while it is in force: the same function set appears in the chosen order (both named orders, Dirac and Turbomole, currently denote x-descending, then y-descending lexicographic order; a generator supplied by the caller can be any permutation), and each integral and gradient is the corresponding permutation of rows and columns. A shell, and any copy of it, keeps its order for its whole life, and shells of different orders can be mixed in one call.",
  ["histories", "configurations"], "all interleavings of order changes with shell creation, copying and integral/gradient calls, for every pair of angular momenta up to 5 and both orders",
  "Each driver sets one order at start and never changes it.",
  ["libgrpp/shell.c", "libgrpp/parameters.c", "libgrpp/grpp_integrals_gradient.c", "libgrpp/overlap_gradient.c", "libgrpp/diff_gaussian.c", "libgrpp/utils.c"],
  [("libgrpp_generate_shell_cartesians", "libgrpp/shell.c"), ("libgrpp_set_cartesian_order", "libgrpp/parameters.c"), ("libgrpp_shell_deep_copy", "libgrpp/shell.c")],
  [("global Cartesian order", "captured at shell creation", "libgrpp/parameters.c"), ("cart_list", "order held by the shell", "libgrpp/libgrpp.h")],
  ["integral matrices rows/columns"])
p("H05", "Initialise/finalise form an idempotent, restartable lifecycle",
  "The library reports itself initialised exactly when initialisation was called more recently than finalisation. Initialising twice, finalising twice or without initialisation, and initialising again afterwards are all harmless, leak nothing, and give bit-identical results; routines that need tables refuse to run (terminate the process) when the library is not initialised instead of returning numbers.",
  ["histories"], "all sequences of initialise/finalise/query/evaluate up to depth 6",
  "The drivers initialise once and never finalise.",
  ["libgrpp/init_finalize.c", "libgrpp/spherical_harmonics.c", "libgrpp/specfunc_scaled_mod_sph_bessel.c"],
  [("libgrpp_init", "libgrpp/init_finalize.c"), ("libgrpp_finalize", "libgrpp/init_finalize.c"), ("assert_initialized", "libgrpp/init_finalize.c")],
  [("initialised flag and tables", "lifecycle", "libgrpp/init_finalize.c")],
  ["libgrpp_is_initialized()", "process termination", "integral values", "allocator's live blocks"])
p("H06", "Tolerance settings bound the error, and setters only do what they say",
  "Tightening or loosening the screening and radial tolerances changes any integral by no more than a bound of the order of the tolerance, never its meaning; restoring a setting restores results bit for bit, and each setter affects only its own setting, from both the C and the Fortran side. The defaults are those documented.",
  ["histories", "configurations"], "all sequences of tolerance/order settings up to depth 3 x integral kinds x tolerance values 1e-6..1e-18",
  "The tests use one fixed tolerance.",
  ["libgrpp/parameters.c", "libgrpp/screening.c", "libgrpp/radial_type1_integral.c", "libgrpp/radial_type2_integral.c", "libgrpp/fortran.c"],
  [("libgrpp_set_radial_tolerance / set_angular_screening_tolerance / set_modified_bessel_tolerance / set_cartesian_order", "libgrpp/parameters.c"), ("screening estimates", "libgrpp/screening.c")],
  [("libgrpp_params", "process-wide settings", "libgrpp/parameters.c")],
  ["integral values"])

# ------------------------------------------------------------------ inputs
NUM = "The tests compare a handful of molecules with stored matrices (to 1e-10), so only the angular momenta, geometries and exponents occurring there are touched; special positions (centres coinciding, on an axis, far away), tight and diffuse exponents, and high angular momenta are not."
p("N01", "Overlap, kinetic-energy and momentum integrals have their defined values",
  "For any two contracted shells the overlap, kinetic-energy (-1/2 Laplacian) and imaginary parts of momentum (-i d/dx,y,z) integrals equal their definitions over contracted Cartesian Gaussians, to near machine accuracy relative to the function norms.",
  ["inputs"], "all pairs of angular momenta 0..10 x relative positions (same, on axes, diagonal, general, far) x exponents and contractions", NUM,
  ["libgrpp/overlap.c", "libgrpp/kinetic.c", "libgrpp/momentum.c", "libgrpp/norm_gaussian.c"],
  [("Obara-Saika recursions", "libgrpp/overlap.c, libgrpp/kinetic.c, libgrpp/momentum.c")], (), ["output matrices"])
p("N02", "Local pseudopotential (type-1) integrals have their defined values",
  "For any two shells, any centre and any local potential sum c r^(n-2) exp(-a r^2), n=0,1,2, the type-1 matrix equals <A|U(r_C)|B> within the library's stated accuracy, whichever evaluation path it selects; no potential or an empty one gives zeros.",
  ["inputs"], "all pairs of angular momenta x relative positions of the three centres x powers 0,1,2 x potential and basis exponents x contractions", NUM,
  ["libgrpp/type1_integrals.c", "libgrpp/type1_mcmurchie_davidson.c", "libgrpp/radial_type1_integral.c", "libgrpp/angular_integrals.c", "libgrpp/specfunc_boys.c", "libgrpp/specfunc_gfun.c", "libgrpp/specfunc_dawson.c"],
  [("libgrpp_type1_integrals", "libgrpp/type1_integrals.c"), ("McMurchie-Davidson path", "libgrpp/type1_mcmurchie_davidson.c"), ("numerical radial path", "libgrpp/radial_type1_integral.c")], (), ["output matrix"])
p("N03", "Semilocal scalar (type-2) integrals have their defined values",
  "For any two shells, any centre and any semilocal potential U_L with angular momentum L, the type-2 matrix equals <A|U_L(r_C) P_L|B> within the library's stated accuracy, for every relative position of the centres including coinciding ones.",
  ["inputs"], "all pairs of basis angular momenta x projector angular momentum x relative positions x powers 0,1,2 x exponents x contractions", NUM,
  ["libgrpp/type2_integrals.c", "libgrpp/radial_type2_integral.c", "libgrpp/angular_integrals.c", "libgrpp/spherical_harmonics.c", "libgrpp/screening.c", "libgrpp/specfunc_scaled_mod_sph_bessel.c"],
  [("libgrpp_type2_integrals", "libgrpp/type2_integrals.c"), ("radial quadrature and screening", "libgrpp/radial_type2_integral.c, libgrpp/screening.c")], (), ["output matrix"])
p("N04", "Effective spin-orbit integrals have their defined values",
  "For any two shells, any centre and any spin-orbit potential with angular momentum L, the three matrices equal the imaginary parts of <A|U_L(r_C) P_L l_x,y,z P_L|B> (L=0 gives zero) within the library's stated accuracy.",
  ["inputs"], "all pairs of basis angular momenta x projector angular momentum x relative positions x powers x exponents x contractions", NUM,
  ["libgrpp/spin_orbit_integrals.c", "libgrpp/lmatrix.c", "libgrpp/radial_type2_integral.c", "libgrpp/angular_integrals.c"],
  [("libgrpp_spin_orbit_integrals", "libgrpp/spin_orbit_integrals.c"), ("angular momentum matrices", "libgrpp/lmatrix.c")], (), ["three output matrices"])
p("N05", "Outercore (non-local GRPP) integrals have their defined values",
  "For any two shells, any centre and any list of outercore pseudospinors with their potentials (j = l +- 1/2, several per (l,j)), the scalar and spin-orbit matrices equal the defining sum of projector terms U|nlj><nlj| + |nlj><nlj|U minus double counting, with all pseudospinors centred on the operator; an empty list gives zeros.",
  ["inputs"], "all small lists of outercore shells (l 0..3, both j, 0-3 of them, equal and different (l,j)) x basis angular momenta x relative positions x potentials", NUM,
  ["libgrpp/outercore_integrals.c"],
  [("libgrpp_outercore_potential_integrals", "libgrpp/outercore_integrals.c")], (), ["four output matrices"])
p("N06", "Full GRPP integrals are the exact sum of their parts",
  "The full operator's scalar and three spin-orbit matrices equal the local, the semilocal, the spin-orbit (weighted by 2/(2L+1)) and the outercore contributions added up, for an operator with any subset of components present, in any number and order.",
  ["configurations", "inputs"], "all operators with 0..2 components of each of the four kinds x shell pairs x positions",
  "Stored matrices exist only for complete operators of four molecules; an operator lacking or repeating a component is never evaluated.",
  ["libgrpp/full_grpp_integrals.c", "libgrpp/grpp.c"],
  [("libgrpp_full_grpp_integrals", "libgrpp/full_grpp_integrals.c"), ("libgrpp_grpp_add_*", "libgrpp/grpp.c")], (), ["four output matrices"])
p("N07", "Pseudopotential gradients are the exact derivatives of the integrals",
  "Each gradient routine returns the derivatives of its integrals with respect to the coordinates of the nucleus at the given point, i.e. of every centre (bra, ket, operator) located there moved together, and zeros when none or all three are; the bra, ket and operator derivatives sum to zero.",
  ["inputs"], "all coincidence patterns of bra, ket, operator centre and point x angular momenta x operator parts (type 1, type 2, spin-orbit, outercore, full) x contractions",
  "Stored gradients exist for a few molecules; coincidence patterns and angular momenta outside them are not covered, nor is translational invariance.",
  ["libgrpp/grpp_integrals_gradient.c", "libgrpp/diff_gaussian.c"],
  [("libgrpp_*_integrals_gradient", "libgrpp/grpp_integrals_gradient.c"), ("libgrpp_differentiate_shell", "libgrpp/diff_gaussian.c")], (), ["gradient output arrays"])
p("N08", "Overlap gradients are the exact derivatives of the overlap integrals",
  "The overlap gradient at a point is the derivative of the overlap integrals with respect to the coordinates of the bra and/or ket centre located at that point, zero if neither or both are there.",
  ["inputs"], "all coincidence patterns x pairs of angular momenta 0..9 x positions x exponents x contractions", NUM,
  ["libgrpp/overlap_gradient.c", "libgrpp/diff_gaussian.c"],
  [("libgrpp_overlap_integrals_gradient", "libgrpp/overlap_gradient.c")], (), ["three output matrices"])
p("N09", "Nuclear attraction integrals have their defined values for every charge model",
  "For a point, uniform-ball, Gaussian, Fermi or Fermi-bubble nucleus of any charge, each entry point (the general one and the five model-specific ones) returns the matrix of the electrostatic energy of an electron in the field of that charge distribution. The analytic and the numerical point-nucleus evaluations agree, all models tend to the point result for small radii, and the matrix is proportional to the charge.",
  ["inputs"], "all models x entry points x charges x radii parameters x pairs of angular momenta x positions (including the nucleus on either centre) x exponents", NUM + " The model-specific entry points are called by no test.",
  ["libgrpp/nuclear_attraction.c", "libgrpp/nuclear_models.c", "libgrpp/type1_mcmurchie_davidson.c", "libgrpp/specfunc_boys.c"],
  [("libgrpp_nuclear_attraction_integrals and wrappers", "libgrpp/nuclear_attraction.c")], (), ["output matrix"])
p("N10", "Nuclear model functions are mutually consistent and normalised",
  "For each nuclear model the charge density integrates to the charge, its root-mean-square radius is the one reported or assumed, and the potential is the electrostatic potential of that density at every distance inside, at the edge of and outside the nucleus (tending to -Z/r). Estimated parameters (rms radius from the mass number, Fermi parameters from the rms radius) satisfy their published formulas and reproduce the radius they came from, and an unreachable radius is reported as an error.",
  ["inputs"], "all models x a grid of charges, radii, skin and bubble parameters x distances from 0 to far outside; all mass numbers 1..300",
  "The tests see these functions only through a few stored matrices at one set of parameters.",
  ["libgrpp/nuclear_models.c", "libgrpp/specfunc_fermi_sk.c"],
  [("charge density / coulomb potential functions", "libgrpp/nuclear_models.c"), ("Fermi S_k functions", "libgrpp/specfunc_fermi_sk.c")], (), ["function values"])
p("N11", "Integrals obey the operators' symmetries",
  "Swapping the two shells transposes every symmetric-operator matrix and transposes with a sign change every antisymmetric one (spin-orbit, momentum); translating all centres changes nothing; permuting, reflecting or rotating the axes permutes, signs or rotates the matrices accordingly, for spin-orbit and momentum as (pseudo)vectors.",
  ["inputs"], "all 48 axis permutations/reflections plus a fixed set of general rotations and translations x integral kinds x angular momenta x geometries",
  "Stored reference matrices fix one orientation of a few molecules; no test transforms one.",
  ["libgrpp/type1_integrals.c", "libgrpp/type2_integrals.c", "libgrpp/spin_orbit_integrals.c", "libgrpp/outercore_integrals.c", "libgrpp/spherical_harmonics.c", "libgrpp/angular_integrals.c"],
  [("real spherical harmonics and angular integrals", "libgrpp/spherical_harmonics.c, libgrpp/angular_integrals.c")], (), ["output matrices"])
p("N12", "Integrals are linear in contraction and potential coefficients",
  "Every integral is linear in the bra, ket and potential coefficients: splitting a contraction or a potential into its primitives and adding the pieces, permuting the primitives, repeating one with split coefficient, adding zero coefficients, or scaling by a factor acts exactly as on the defining sum.",
  ["inputs"], "all set partitions/permutations/zero-insertions of contractions with up to 3 primitives and potentials with up to 3 terms x integral kinds x sign patterns and scales of coefficients",
  "Tests use fixed contracted basis sets; no test recombines them.",
  ["libgrpp/type1_integrals.c", "libgrpp/type2_integrals.c", "libgrpp/radial_type2_integral.c", "libgrpp/screening.c", "libgrpp/outercore_integrals.c", "libgrpp/overlap.c"],
  [("primitive loops and screening", "libgrpp/*_integrals.c, libgrpp/screening.c")], (), ["output matrices"])
p("N13", "No memory error or undefined behaviour within the documented limits",
  "For every documented input (angular momenta of basis functions and operators up to the published maxima, any number of primitives, gradients included) each routine completes without reading or writing outside its arrays, using uninitialised data, leaking, overflowing integers or tripping an internal assertion, and returns finite numbers.",
  ["inputs"], "all routines x angular momenta 0..10 of each shell and 0..10 of the operator x degenerate and general geometries, under address/undefined-behaviour instrumentation",
  "Tests stop at angular momentum about 5, in an uninstrumented build.",
  ["libgrpp/overlap.c", "libgrpp/kinetic.c", "libgrpp/momentum.c", "libgrpp/type1_mcmurchie_davidson.c", "libgrpp/type1_integrals.c", "libgrpp/overlap_gradient.c", "libgrpp/grpp_integrals_gradient.c", "libgrpp/factorial.c", "libgrpp/binomial.c", "libgrpp/spherical_harmonics.c"],
  [("fixed-size work arrays", "libgrpp/overlap.c, libgrpp/kinetic.c, libgrpp/momentum.c, libgrpp/type1_mcmurchie_davidson.c"), ("factorial/binomial tables", "libgrpp/factorial.c, libgrpp/binomial.c")], (), ["sanitizer reports", "process exit", "finiteness of outputs"])
p("F01", "The Fortran binding returns exactly what the C interface returns",
  "Each routine of the Fortran binding, given the same data as flat arguments, returns bit for bit what the corresponding C routine (or the documented composition of them) returns, for every routine, including settings, lifecycle, gradients, the split outercore routines (whose two parts sum to the whole) and nuclear models.",
  ["inputs", "histories"], "all Fortran-callable routines x angular momenta x geometries x contraction lengths x coincidence patterns",
  "The Fortran driver is compared with stored matrices for a few molecules only; several exported wrappers are called by nobody.",
  ["libgrpp/fortran.c", "test_libgrpp_f90/libgrpp.f90"],
  [("*_ wrappers", "libgrpp/fortran.c"), ("interface blocks", "test_libgrpp_f90/libgrpp.f90")], (), ["output arrays"])
p("D01", "The C front-end prints the matrices its input files define",
  "For any well-formed molecule (XYZ with its comment line), basis-set and pseudopotential files, the C front-end writes, for each requested kind of integral and nothing else, the matrix (or gradient with respect to each atom) over exactly the shells of the file in file order, each atom contributing its own basis and operator; the values are those of the library for that molecule, with every basis function normalised and nuclear sizes taken from the most abundant isotope. It reports an error instead of writing a Fermi-model matrix for nuclei too light for that model.",
  ["inputs", "configurations"], "all small input-file triples over an alphabet of element multisets, block orders, shell layouts, comments/blank lines/letter case and pseudopotential block shapes x requested integral kinds",
  "Tests run seven fixed molecules whose files share one layout.",
  ["test_libgrpp_c/main.c", "test_libgrpp_c/basis.c", "test_libgrpp_c/rpp.c", "test_libgrpp_c/molecule.c", "test_libgrpp_c/shell_list.c", "test_libgrpp_c/eval_integrals.c", "test_libgrpp_c/eval_integrals_grad.c"],
  [("read_basis_set / read_grpp / read_molecule", "test_libgrpp_c/basis.c, test_libgrpp_c/rpp.c, test_libgrpp_c/molecule.c"), ("matrix assembly", "test_libgrpp_c/eval_integrals.c")], (), ["output files"])
p("D02", "The C and Fortran front-ends agree",
  "Given the same well-formed input files, the C and the Fortran front-end write the same matrices and gradients for every kind of integral both evaluate (operator, overlap, point nuclei; gradients of the local, semi-local and spin-orbit parts, of which the Fortran front-end writes the sum of the first two).",
  ["inputs", "configurations"], "all small input-file triples of the front-end alphabet x integral kinds supported by both",
  "Both are compared with stored matrices of a few molecules, never with each other on anything else.",
  ["test_libgrpp_f90/main.f90", "test_libgrpp_f90/basis.f90", "test_libgrpp_f90/rpp.f90", "test_libgrpp_f90/xyz.f90", "test_libgrpp_f90/evalints.f90", "test_libgrpp_c/main.c"],
  [("Fortran readers", "test_libgrpp_f90/*.f90"), ("C readers", "test_libgrpp_c/*.c")], (), ["output files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
