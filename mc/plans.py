import os
"""Build variants and one plan per property."""
GCC = ["-O3", "-std=gnu11", "-fopenmp"]
LIBS = {
    # the project's own flags
    "plain": dict(cc="gcc", flags=GCC, libs=["-fopenmp"]),
}
ALPHA = ("centres, exponents and coefficients outside the listed alphabet are not covered",
         "the reference model (mc/ref.hpp) is right: it shares nothing with the library and is itself cross-checked by the symmetry and derivative checks")


def num(src, bounds, oracle, lib="plain", budget=None, more=()):
    return dict(progs=[dict(src=[src], lib=lib)], bounds=bounds, oracle=oracle, assumptions=list(ALPHA) + list(more),
                budget=budget or {"quick": 600, "thorough": 6000})


CHECKS = {
    "N01": num("checks/N01.cpp",
               "13 geometries x 5 x 5 contractions x all L<=6 pairs (thorough: L<=10), plus every L pair up to 10",
               "Gauss-Hermite quadrature of the definitions"),
    "N02": num("checks/N02.cpp",
               "13 geometries x 3 x 3 contractions x 12 potentials x all L<=2 pairs (thorough: 5 x 5 x L<=5), every L pair up to 10, 48 distances x 7 L pairs x 3 exponents x 6 potentials, empty potentials",
               "direct 3-dimensional quadrature of <A|U|B>"),
    "N03": num("checks/N03.cpp", "13 geometries x 4 x 4 contractions x 12 potentials x (a third of) L<=2 pairs x l<=3 (thorough: 5 x 5, L<=4, l<=4 at a cost up to 0.1 s each), every (l<=10, L<=10, L'<=10) x 6 geometries (thorough: 11) that the library evaluates in 0.06 s (thorough: 5 s), 21 distances x 3 arrangements x exponents 0.08-300, tight functions at 0.001-0.02 bohr",
               "radial x angular quadrature of the projected functions"),
    "N04": num("checks/N04.cpp", "13 geometries x 4 x 4 contractions x 12 potentials x (a third of) L<=2 pairs x l<=3 (thorough: 5 x 5, L<=4, l<=4 at a cost up to 0.1 s each), every (l<=10, L<=10, L'<=10) x 6 geometries (thorough: 11) that the library evaluates in 0.06 s (thorough: 5 s), 21 distances x 3 arrangements x exponents 0.08-300, tight functions at 0.001-0.02 bohr",
               "radial x angular quadrature of the projected functions, angular momentum matrices from polynomial algebra"),
}

TECHNIQUE = "explicit-state enumeration of every configuration within bounds, each executed on the real library and compared with an independent reference model"
NOT_YET = {}
CHECKS["N05"] = num("checks/N05.cpp", "13 geometries x 16 pseudospinor lists x 3 x 3 contractions x (half of) L<=3 pairs (thorough: 5 x 5, all L<=4), every l<=10 with both j, basis L up to 10, all ordered lists of up to 3 out of 5 (l, j), with and without potentials",
                    "the defining projector sum by radial x angular quadrature")
CHECKS["N06"] = num("checks/N06.cpp", "all subsets of local (3) x averaged l<=2 x spin-orbit l<=2 x 16 pseudospinor lists, all construction sequences up to length 3 (thorough: 5) of 9 operations, up to 100 components; 13 geometries, L<=2",
                    "sum of separately evaluated parts, and quadrature of the whole")
CHECKS["N08"] = num("checks/N08.cpp", "13 geometries x 5 x 5 contractions x 4 points x (half of) L<=5 pairs (thorough: all L<=10), all L pairs up to 10; centres 1e-8..1e-2 apart in 8 arrangements",
                    "Gauss-Hermite quadrature of analytically differentiated functions")
CHECKS["N07"] = num("checks/N07.cpp", "local, averaged and spin-orbit: 13 geometries x 4 points x 3 x 2 contractions x 2 potentials x (a third of) L<=2, l<=2 (thorough: 3 x 3 x 3, L<=3, l<=3); 16 pseudospinor lists; 72 compositions of the full operator; L<=10, l<=4 (thorough: l<=10) as far as the library's cost allows; points 1e-8..1e-2 apart in 8 arrangements",
                    "quadrature of analytically differentiated functions, operator derivative by translation invariance")
CHECKS["N09"] = num("checks/N09.cpp", "13 geometries x 14 nuclei x 3 x 3 contractions x (a third of) L<=2 pairs (thorough: 5 x 5, all L<=4), all L pairs up to 10 x 6 nuclei, Boys argument 0-2000 in 48 (120) steps x 3 exponents x 7 L pairs, every cell of the table of the Boys function, radii 1e-3..1e-6 x 7 charges",
                    "quadrature of the potential of the charge distribution, itself by quadrature of the density")
CHECKS["N10"] = num("checks/N10.cpp", "Fermi and bubble: 17 ratios (thorough: 316) c/a x 5 sizes x 6 bubble parameters x 2 charges x ~220 distances; every cell of the table of S_k; ball and Gaussian: 5 radii x 5 charges x 425 distances; mass numbers 1-400; radii 0.01-12 fm",
                    "quadrature of the charge density; published formulas")
CHECKS["N11"] = num("checks/N11.cpp", "20 kinds of integral and gradient x L<=2..4 pairs (thorough: <=6) x l<=2: all 48 signed axis permutations at 1 (thorough: 4) geometries, 6 proper and improper rotations at 3 (7) geometries, exchange of bra and ket and 3 translations at all 13 geometries",
                    "the library itself at the transformed configuration, transformed back with the exact representation matrices")
CHECKS["N12"] = num("checks/N12.cpp", "20 kinds x bra/ket/potential x L<=2 pairs (thorough: L<=3) x l<=2 x 5 (13) geometries x 3 contractions x ~20 rewritings (all permutations, splits, repetitions, zero insertions, scalings); outercore and full operators x 16 pseudospinor lists; 25 lengths of sums from 5 to 257 terms in bra, ket, both, potential, pseudospinor potential; up to 21 (l, j) with 1-3 pseudospinors each",
                    "the library itself on the rewritten sum")
def hist(src, bounds, oracle, lib="plain", budget=None, more=()):
    return dict(progs=[dict(src=[src], lib=lib)], bounds=bounds, oracle=oracle, assumptions=["operands outside the listed alphabet and histories longer than the stated depth are not covered"] + list(more),
                budget=budget or {"quick": 600, "thorough": 6000}, technique="stateless exploration of all call histories up to a depth on the real library, each in a process of its own")


CHECKS["H01"] = hist("checks/H01.cpp", "20 kinds x up to 14 operand variants that differ in one respect: all pairs (thorough: triples) within a kind and back; all pairs of kinds x 2 (thorough: x14) variants; all words of length <=2 (3) of 9 settings/lifecycle/noise actions between two calls; all triples of 8 (thorough: 40) calls; 130-300 (1500) calls in a row; all pairs of kinds alternating on the same objects; all ordered pairs of operand variants with the later objects at the addresses of the deleted earlier ones; heap contents varied",
                     "the same call as the first of a fresh process, bit for bit")
CHECKS["H02"] = hist("checks/H02.cpp", "20 kinds x 13 geometries x 5 potentials (empty, negligible, mixed) x 4 pseudospinor lists x 4 contractions (zero, screened away) x 4 points x L<=2 pairs (thorough: L<=4) x 5 previous contents of the outputs; shared input memory; L<=10 as far as cheap",
                     "byte images of all inputs, guard zones around all outputs, results compared bit for bit between previous contents")
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
LIBS["asan"] = dict(cc="gcc", flags=["-O1", "-g", "-std=gnu11", "-fopenmp"] + ASAN, libs=["-fopenmp"] + ASAN, hflags=["-O1", "-g", "-fsanitize=address"])
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=0", "UBSAN_OPTIONS": "print_stacktrace=1"}
CHECKS["H03"] = hist("checks/H03.cpp", "all histories of 6 (thorough: 7) actions from nothing, and of 5 (6) after prepared shells, potentials and operators, over 20 actions (create, copy, shrink, normalise, edit, attach, use, delete, swap) x 3 orders of the final deletions; 0-100 components per list; 8^3 coefficient patterns x 27 powers; L<=10",
                     "a value model of the objects, address-sanitizer build, accounting of every block allocated inside library calls", lib="asan")
CHECKS["H03"]["progs"][0]["env"] = ASAN_ENV
CHECKS["H04"] = hist("checks/H04.cpp", "20 kinds x orders of A, B, pseudospinors and at the time of the call (4 each: both named ones and two from the caller) x copies x L<=2 pairs (thorough: 3) x 3 geometries; all L pairs up to 10 (cheap kinds) or 3-5; all words of length 6 (thorough: 8) over 6 order/create/copy actions; lists up to L=14",
                     "the result in the default order, permuted")
CHECKS["H05"] = hist("checks/H05.cpp", "all words of length 5 over init/finalise/evaluate/evaluate another (thorough: length 6, with the Fortran entry points, 8 pairs of kinds); 20 kinds x all words of length 2 (3) with an evaluation before and after each action; 12 (150) cycles x 3 shapes x 7 kinds",
                     "a two-state model of the lifecycle, the result after a single initialisation bit for bit, heap in use around library calls (thorough: also under address-sanitizer)")
CHECKS["H05"]["progs"][0]["env"] = {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0"}
CHECKS["H05"]["progs"].append(dict(src=["checks/H05.cpp"], lib="asan", defs=["-DASAN_BUILD"], env=ASAN_ENV, tier="thorough"))
CHECKS["H06"] = hist("checks/H06.cpp", "20 kinds x 13 geometries x 3 contractions (thorough: 5) x 12 potentials x L<=2 pairs x 4 ways of setting x 6 tolerances 1e-6..1e-18; all words of length 3 (4) over 15 settings, lifecycle and evaluation actions from both sides",
                     "the result at the default tolerance within 30 x tolerance x size of the integrals; a model of the settings")
CLX = ["-fsanitize=memory", "-fno-omit-frame-pointer", "-fno-sanitize-memory-param-retval"]
LIBS["msan"] = dict(cc="clang", cxx="clang++", flags=["-O1", "-g", "-std=gnu11"] + CLX, libs=CLX, hflags=["-O1", "-g", "-fsanitize-ignorelist=" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "msan.ignore")] + CLX)
CHECKS["N13"] = hist("checks/N13.cpp", "20 kinds x all L, L' <= 10 x l <= 10 that cost less than a limit, 13 geometries, 15 extreme parameter sets (up to 130 terms, 40 pseudospinors); 15 kinds of the Fortran binding x 13 geometries x 0-40 primitives and its 6 other routines; twice: address/undefined-behaviour build with allocation accounting, and uninitialised-memory build",
                     "sanitizers, allocation balance, finiteness", lib="asan")
CHECKS["N13"]["progs"][0].update(env=ASAN_ENV, defs=["-DQLIMIT=0.5"])
CHECKS["N13"]["progs"].append(dict(src=["checks/N13.cpp"], lib="msan", defs=["-DMSAN_BUILD", "-DQLIMIT=0.3"], env={}))

CHECKS["F01"] = hist("checks/F01.cpp", "15 kinds of the binding x 13 geometries x 2 Cartesian orders x L<=2 pairs x l<=2 x 12 potentials (thorough: all combinations) x 4 points; L<=10, l<=10 as far as cheap; split outercore routines x 16 pseudospinor lists; 22 lengths of sums from 7 to 257 terms; 5 nuclear routines x 4 charges x 2 radii; all nuclear model functions; every single overlap integral of L<=5 pairs; all words of length 3 (4) over 16 settings and lifecycle calls from both sides",
                     "the C interface, bit for bit; a model of the settings")

LIBS["sched"] = dict(cc="gcc", flags=["-O1", "-g", "-std=gnu11", "-fopenmp", "-fsanitize=thread", "-U_FORTIFY_SOURCE", "-fno-tree-loop-distribute-patterns", "-fno-stack-protector"] +
                     ["-fno-builtin-" + x for x in ("memset", "memcpy", "memmove", "memcmp", "strcpy", "strncpy", "strcmp", "strlen", "malloc", "calloc", "realloc", "free")],
                     runtime=["mc/sched.cpp"], deps=["mc/sched.syms"], redefine="mc/sched.syms", ldflags=["-rdynamic"], hflags=["-O2", "-g"])
CHECKS["T01"] = hist("checks/T01.cpp", "2 threads: all pairs of 20 kinds on the same objects, each thread both calls in opposite order; the same kind on all pairs of 5 operand variants; 3 threads: 40 triples (thorough: all 1540); 13 unusual sets of operands x 20 kinds x both bindings, the same call in 2 threads; all orders of starts and of synchronisation operations; every access to memory monitored",
                     "a vector-clock monitor of every access to memory (a pair of conflicting accesses not ordered by synchronisation is a violation in whichever schedule it is found); the result of the same call alone, bit for bit", lib="sched")
CHECKS["T01"]["technique"] = "stateless model checking of the real code: instrumented build under a controlled scheduler, depth-first enumeration of all schedules with sleep sets, happens-before monitor"
CHECKS["T02"] = hist("checks/T02.cpp", "2 threads x words over C and Fortran initialisation and evaluation (length <=3) x library never initialised, initialised, finalised; all kinds that need initialisation, pairwise; 3 (thorough: 4) threads; all schedules of the synchronisation operations; every access to memory monitored",
                     "a vector-clock monitor of every access to memory; results after a single-threaded initialisation, bit for bit; the initialised flag", lib="sched")
CHECKS["T02"]["technique"] = CHECKS["T01"]["technique"]

CHECKS["D01"] = hist("checks/D01.cpp", "10 basis x 11 pseudopotential shapes alone and in pairs; every layout of the files that differs from the plain one in at most 2 (thorough: 3) of 7 features x 2 molecules; 6 large entries (28 primitives, 12 contracted functions, L=5, l=5, 21-term potentials, 19 outercore shells); all 131 element symbols; all molecules of up to 3 (4) atoms over 4 elements, with and without coinciding atoms; all pairs (triples) of the 16 options; every output file compared",
                     "the matrices assembled by the harness from library calls", lib="plain")
CHECKS["D01"]["progs"][0]["driver"] = True
CHECKS["D01"]["technique"] = "explicit-state enumeration of all input files within bounds, each run through the real program and compared with an independent assembly"

CHECKS["D02"] = hist("checks/D02.cpp", "10 basis x 11 pseudopotential shapes alone and (a third of) in pairs (thorough: all); every layout of the files that differs from the plain one in at most 2 (thorough: 3) of 6 features x 2 molecules (files whose headers the Fortran reader loses, a known finding, left to a harness of their own); the 6 large entries of D01; 129 elements; all molecules of up to 3 atoms over 4 elements, with and without coinciding atoms",
                     "the files of the other front-end", lib="plain")
CHECKS["D02"]["progs"][0]["driver"] = True
CHECKS["D02"]["technique"] = "explicit-state enumeration of all input files within bounds, each run through both real programs"

CHECKS["T03"] = hist("checks/T03.cpp", "5 molecules x 2-4 (thorough: 5) shells with every iteration of the loop on a thread of its own (no conflicting access between any two iterations); 5 molecules x all assignments and orders of 4 (thorough: 9) iterations to 2 threads (thorough: and of 4 iterations to 3 threads); all 16 options",
                     "the matrices assembled sequentially by the harness; a vector-clock monitor of every access to memory", lib="sched")
CHECKS["T03"]["progs"][0]["repo_src"] = ["test_libgrpp_c/*.c"]
CHECKS["T03"]["technique"] = CHECKS["T01"]["technique"]
