"""What each check compiles and how its evidence describes the cases."""
# Compiled without optimisation (third-party code and option/factory tables).
O0 = ['/fparser/', '/gomea/src/', '/fast-efficient-p3/', 'function-factory', 'algorithm-factory', '-options.cc', 'python-function', '/hnco/app/', '/multiobjective/app/', '/bindings/']
# Headers whose implementation file has another name.
PARTNER = {'fast-efficient-p3/HillClimb': 'fast-efficient-p3/HillCimb.cpp'}

_HEAVY = {'fpoptimizer.cc': 9e6, 'function-factory.cc': 1e7, 'fparser.cc': 5e6, 'algorithm-factory.cc': 7e6, 'Config.cpp': 8e6, 'python-function.cc': 6e6, 'hnco.cc': 3e7}
def weight(src, size):
    import os
    b = os.path.basename(src)
    if '/harness/' in src and b != 'pbt_main.cc': return 2e7
    return _HEAVY.get(b, size)

def cli_tools(b):
    import os
    repo = os.environ.get('VERIF_REPO', '/repo')
    for t, extra in (('hnco', []), ('hnco-mo', []), ('ffgen', ['ffgen-options.cc']), ('mapgen', ['mapgen-options.cc'])):
        b.program([os.path.join(repo, 'app', x) for x in [t + '.cc'] + extra] + [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'cli_alloc.cc')], 'cli-' + t)

CHECKS = {
 'P01': dict(harness='p01.cc', scale=4, rule='all 31 kinds of function in the catalogue (harness/functions.hh) with generated instance data, sizes 1..130, points drawn at random and near landmarks (maximisers, path ends, thresholds), all points at sizes up to 9; factors of up to 200 bits, long paths of up to 512 bits (lengths beyond 2^53); TSP, sudoku, factorisation and plug-in separately; non-trivial: more than 2 bits'),
 'P07': dict(harness='p07.cc', scale=2, rule='bit matrices of 1..70 (sometimes 270) rows and columns from six densities (zero, identity-like, rank-deficient by construction, triangular, random), right-hand sides in and out of the image; non-trivial: at least 2x2 and not the zero matrix'),
 'P24': dict(harness='p24.cc', scale=12, rule='bit vectors of size 0..140 (dense, sparse, constant), integers of 64 bits, index lists, permutations of up to 100 elements; non-trivial: at least 2 components, neither constant'),
 'P08': dict(harness='p08.cc', scale=4, rule='maps of 1..70 (sometimes 300) bits built by their random/setter entry points, re-used objects, compositions of 2..5 maps enumerated over all inputs, transvection sequences of up to 100 elements in all six sampling modes; non-trivial: at least 2 bits in and out (2 transvections for sequences)'),
 'P02': dict(harness='p02.cc', scale=16, rule='functions that document incremental evaluation (and others, to catch false claims) under 0..4 wrappers, chains of 1..300 moves with flip sets empty, full, single and random; non-trivial: more than 2 bits'),
 'P03': dict(harness='p03.cc', scale=12, rule='functions with a declared maximum, alone and under 1..4 wrappers and coordinate changes, scanned over all points at up to 15 bits, and around a known maximiser at up to 512 bits, maxima of long paths beyond 2^53; non-trivial: more than 2 bits'),
 'P04': dict(harness='p04.cc', scale=8, technique='stateful model-based property testing of call histories', rule='stacks of 1..4 controllers in any order (and the order used by the application) over a function with a small value table, histories of 1..700 evaluate / evaluate_incrementally / update / evaluate_safely calls compared step by step with a reference model; non-trivial: more than 3 operations on more than 1 bit'),
 'P05': dict(harness='p05.cc', scale=12, rule='1..6 wrappers in any order over catalogue functions, compared with the mathematical composition (all points at small sizes); prior noise observed through a recording function; Gaussian noise by moments of 4000 draws; non-trivial: more than 2 bits'),
 'P15': dict(harness='p15.cc', scale=18, rule='all 29 algorithms (25 native, HBOA, LTGA, P3, GOMEA) with generated parameters, on generated objectives with ties, plateaus, constants and negative values, complete runs, runs cut at any evaluation after the initial points, populations of up to 150, sizes of up to 300, the interactive algorithm fed with generated input, repeated runs of one object, problems of different sizes in one process, and restarts; non-trivial: more than 1 bit (more than 1 run for restarts)'),
 'P16': dict(harness='p16.cc', scale=24, rule='25 native algorithms with generated parameters and objectives, every evaluation recorded: exact counts (simulating patience and ascent from the recorded values), objects re-used with new iteration counts, restarts, unlimited runs, objects of 19 kinds given all their parameters anew after a complete or cut run and compared with an object which had them from the start, mutation rates changed between runs (rates 0 and 1 make the moves deterministic), log lines per iteration; non-trivial: more than 1 bit (more than 1 run for restarts)'),
 'P17': dict(harness='p17.cc', scale=9, rule='local searches and single-point evolutionary algorithms with generated neighbourhoods, starting points, limits, budgets and objectives with plateaus; every evaluated point is replayed through a model of the search (exact current point, or the set of possible current points for annealing); acceptance probability, tie-breaking by counts with 7-sigma bounds; non-trivial: at least one move'),
 'P13': dict(harness='p13.cc', technique='stateful model-based property testing of propose/keep/forget histories', scale=15, rule='four neighbourhoods of 1..130 bits built and reconfigured through constructors and setters, histories of 1..60 operations (set_origin, propose, keep, forget, mutate, map, reconfigure), and counts of flips, positions and flip sets over 6000 moves with 7-sigma bounds; non-trivial: more than 1 bit'),
 'P14': dict(harness='p14.cc', scale=15, rule='hypercube iterators of 0..14 bits and neighbourhood iterators of 1..80 bits (sometimes up to 600), radius 0..n, in 1..5 passes with complete or partial enumeration, restart and change of origin in either order; non-trivial: more than 1 bit'),
 'P18': dict(harness='p18.cc', scale=25, rule='populations of 1..40 (sometimes 400) individuals with ties, extreme and infinite values, sorted and selected over several rounds and compared with sorted reference pools; selection probabilities, tournament ranks, tie-breaking and crossover biases by counts with 7-sigma bounds; non-trivial: more than 2 individuals'),
 'P22': dict(harness='p22.cc', scale=15, rule='value sets of 1..120 points with 1..6 objectives (ties, duplicates, chains, infinities, denormals) and NSGA-II runs with generated parameters on six families of functions, replayed generation by generation through a reference model (fronts, crowding distances, survivors, who may be a parent), objects re-used with other parameters; non-trivial: at least 2 objectives, at least one generation'),
 'P19': dict(harness='p19.cc', scale=1, rule='all 29 algorithms run twice with one seed (second object or same object, other algorithms, random draws, allocations in between, complete or cut runs, logs captured), restarts, 25 random generators and samplers drawn twice with one seed and once with another, reset of the generator; non-trivial: at least 2 bits'),
 'P20': dict(harness='p20.cc', scale=16, rule='runs of the seven univariate model-based algorithms, HEA and Boltzmann-machine PBIL on objectives without ties, every logged model compared with the update computed from the recorded points, samples compared with the model by martingale bounds (8 sigma); histories of moment operations in both storage layouts against a dense reference; herding samples replayed over all bit orders; Gibbs updates; MIMIC chains rebuilt from the selected points; non-trivial: more than one iteration on more than 2 bits'),
 'P06': dict(harness='p06.cc', scale=18, racy=True, workers=4, omp=8, assumptions=['thread schedules are those the OpenMP runtime produces under injected delays; they are not enumerated'], technique='property-based differential testing of parallel against sequential runs under perturbed thread schedules', rule='populations of 1..300 points evaluated with 1..8 threads over functions with private scratch memory and random delays, library functions under maps, stacks of 1..5 controllers over several rounds, whole runs of the 14 population-based algorithms and of NSGA-II with several threads against one; non-trivial: more than one point and (for values) more than one thread'),
 'P21': dict(harness='p21.cc', rule='tables of values (integers, sparse, constant, spikes, parities, reals) of 1..14 bits, the 31 kinds of library function, expansions with repeated features, Ising models and linear functions; both transforms compared with a reference transform and rebuilt into an expansion evaluated at all points; non-trivial: more than 1 bit, not constant'),
 'P11': dict(harness='p11.cc', scale=8, rule='integer (int and long, bounds up to the limits of the type, by size, precision and count), float (float and double), complex, categorical (both), value-set and permutation representations with generated parameters, all codes at up to 9 bits, slices at random offsets among random bits; non-trivial: more than 1 bit or element'),
 'P12': dict(harness='p12.cc', scale=2, rule='all adapters (multivariate in four number types, mixed, universal, permutation, multi-objective) over recording functions with generated representations; random arithmetic expressions (double, long, complex, lists) with and without redundant parentheses against a tree evaluator; well-formed and corrupted domain specifications; whole functions built from text with defaults; non-trivial: more than one variable (at least one for expressions)'),
 'P09': dict(harness='p09.cc', scale=3, technique='property-based round-trip testing of save / load histories', rule='all 12 function classes that can be saved and all 5 classes of maps, with generated contents (any finite double, subnormal, negative zero, largest; any file), 1..3 rounds of save and load into a fresh, used, regenerated or the same object, everything observable compared exactly before and after, files compared byte by byte, missing files and full devices; non-trivial: more than 2 bits'),
 'P10': dict(harness='p10.cc', cxxflags=['-fsanitize=undefined,float-cast-overflow','-fno-sanitize-recover=undefined,float-cast-overflow'], ldflags=['-fsanitize=undefined'], technique='property-based testing with generated layouts, and structure-aware mutation fuzzing under sanitizers', rule='instances of the six text formats rendered with generated comments, blank lines, spaces, tabs, line ends, orders and number formats and compared with a reference evaluation, in fresh and re-used objects; the same files and the archives of all 14 serialised classes damaged by 1..4 mutations of bytes, tokens and lines, loaded in fresh and used objects under address and undefined-behaviour sanitizers and evaluated when accepted; folders in place of files; declared sizes of dense instances up to 300; non-trivial: more than 2 variables and terms, or a file that differs from the well-formed one'),
 'P23': dict(harness='p23.cc', prepare=cli_tools, hang=120, technique='property-based testing of whole command lines against the library and an option model', rule='command lines for hnco (33 function types, plug-in included, with generated instance files, 20 parsed types, 6 maps, modifiers, controllers, 31 algorithms with options given or left out), hnco-mo, ffgen and mapgen, each executed at least twice as a separate process; results compared with the library, with saved and reloaded solutions and with the request; 19 kinds of invalid request; non-trivial: more than 1 bit'),
 'P25': dict(harness='p25.cc', scale=4, technique='model-based property testing of recorded runs', rule='runs of the seven non-trivial evolutionary algorithms with generated parameters, sizes 2..60 (sometimes 400), objectives with and without ties, objects run again with other parameters; every evaluated point and every logged rate is replayed through a model of the scheme (parents, mutants, crossover, replacement, rates), flips and choices by martingale bounds (8 sigma); non-trivial: more than a few iterations, more than one parent'),
 'P26': dict(harness='p26.cc', extra=['bindings/hnco.cc'], scale=3, technique='differential property testing through an embedded Python interpreter', rule='statements generated for an embedded Python interpreter holding the bindings, each run next to the same C++ calls with the same seed: 27 kinds of functions, 8 of maps, stacks of 1..4 wrappers (inner references dropped in a third of the cases), neighbourhoods and iterators, representations, all 25 bound algorithms with their setters (run once or twice, with and without budget), populations, containers, NSGA-II; functions and algorithms written in Python, raising errors at generated points, or loaded from generated files (sound and faulty); non-trivial: more than one bit or object or iteration'),
}

NOT_APPLICABLE = {}
