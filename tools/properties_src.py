import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

F="lib/hnco/functions/"
A="lib/hnco/algorithms/"
p("P01","Objective functions compute their mathematical definition",
 "For every objective function of the library and every bit vector of the right size, the value returned is the one given by the function's published definition for its instance data (weights, clauses, couplings, table entries, distances, thresholds, block sizes). The value depends only on the instance and the bit vector: evaluating again, in any order, through the ordinary or the thread-safe entry point, gives the same value and leaves the argument unchanged. Randomly generated instances have the shape that was requested (sizes, clause lengths over distinct variables, planted solutions, distinct neighbours).",
 ["inputs","histories"],"all functions of the collection, all instance parameters and data, all bit vectors, all evaluation orders",
 "Unit tests only run complete search on a few fixed-size instances and compare the best value with the declared maximum; they never compare individual values with an independent definition.",
 [F+"collection/theory.cc",F+"collection/jump.cc",F+"collection/trap.cc",F+"collection/four-peaks.cc",F+"collection/long-path.cc",F+"collection/labs.cc",F+"collection/cancellation.cc",F+"collection/linear-function.cc",F+"collection/max-sat.cc",F+"collection/nk-landscape.cc",F+"collection/qubo.cc",F+"collection/partition.cc",F+"collection/equal-products.cc",F+"collection/tsp.hh",F+"collection/ising",F+"collection/walsh",F+"collection/sudoku.cc",F+"collection/factorization.cc"],
 [("evaluate of each function class",F+"collection/*.cc"),("evaluate_safely default forwarding",F+"function.hh")],
 ["return value of evaluate / evaluate_safely"])
p("P02","Incremental evaluation agrees with full evaluation",
 "Whenever a function (plain, or wrapped in any stack of controllers and modifiers) says it provides incremental evaluation, evaluating incrementally from a bit vector, its value and a set of flipped positions returns the value that full evaluation gives for the bit vector with those positions flipped, up to floating-point rounding. A wrapper never claims incremental evaluation that the wrapped function cannot deliver, and chains of accepted incremental moves never drift from the true value.",
 ["inputs","histories","configurations"],"all functions and wrapper stacks that claim support, all base vectors, all flip sets (including empty and full), all chains of moves",
 "The unit tests try random single flips of three functions at one size; wrappers, multi-flip sets and long chains are not exercised.",
 [F+"collection/theory.cc",F+"collection/linear-function.cc",F+"collection/ising/nearest-neighbor-ising-model-1.cc",F+"collection/ising/nearest-neighbor-ising-model-2.cc",F+"collection/walsh/walsh-expansion-1.cc",F+"modifiers/modifier.hh",F+"controllers/controller.cc"],
 [("evaluate_incrementally",F+"collection/*.cc"),("provides_incremental_evaluation delegation",F+"modifiers/modifier.hh")],
 ["return value of evaluate_incrementally, of provides_incremental_evaluation"])
p("P03","A declared maximum is attained and never exceeded",
 "Whenever a function, possibly wrapped in modifiers, controllers or a coordinate change, declares that its global maximum is known, the declared number is the largest value it takes over all bit vectors: it is attained and no bit vector exceeds it. A coordinate change may only keep the declaration when it reaches every bit vector of the wrapped function. The test whether a bit vector is globally maximal agrees with the maximum.",
 ["inputs","configurations"],"all functions with a declared maximum, all instance parameters, all wrapper stacks, all bit vectors (exhaustive at small sizes, directed sampling beyond)",
 "Unit tests run complete search for one or two sizes per function; maxima of wrapped functions and most parameter combinations are never examined.",
 [F+"collection",F+"modifiers/modifier.hh",F+"modifiers/modifier.cc",F+"controllers/controller.hh","lib/hnco/maps/map.hh"],
 [("get_maximum / has_known_maximum",F+"collection/*.hh"),("surjectivity guard of map composition",F+"modifiers/modifier.hh")],
 ["get_maximum, has_known_maximum, evaluate"])
p("P04","Evaluation accounting is exact for every call history",
 "For any interleaving of full, incremental and externally reported evaluations: call counts equal the number of evaluations delivered, a budget of n lets exactly n evaluations through and then signals the last evaluation before delivering any other, and a target is signalled exactly at the first evaluation whose value reaches it, exposing that bit vector and value. The progress record holds the best value delivered so far, the index of the evaluation which first produced it and, when asked to, the very bit vector that has that value; a cache returns the wrapped function's value, evaluates each distinct vector once and reports the true lookup ratio.",
 ["histories","inputs","configurations"],"all stacks of controllers over any function, all operation sequences, budgets and targets",
 "No unit test touches the controllers; they are stateful and their guarantees quantify over call histories.",
 [F+"controllers/controller.cc",F+"controllers/controller.hh",F+"decorator.hh"],
 [("call counting, budget, target, progress, cache",F+"controllers/controller.cc")],
 ["exceptions thrown, number of calls, last improvement, trigger, lookup ratio"],
 [("progress record","best value so far with its evaluation index and vector",F+"controllers/controller.hh")])
p("P05","Function wrappers compute exactly the composed function",
 "Negating, taking the opposite bit vector, composing with a coordinate change, applying a parsed expression to the value, adding noise and wrapping in controllers each yield precisely the composition they name, for any nesting order. The input size seen by the user, the declared maximum and the description of a solution all refer to the composed function; Gaussian noise is centred on the true value with the requested deviation, and a prior-noise wrapper only ever evaluates neighbours allowed by its neighbourhood.",
 ["inputs","configurations"],"all wrapper stacks, wrapped functions, maps, expressions and bit vectors",
 "Unit tests cover at most one wrapper at a time on one function, and none compares nested stacks with the mathematical composition.",
 [F+"modifiers/modifier.cc",F+"modifiers/modifier.hh",F+"modifiers/parsed-modifier.hh",F+"modifiers/prior-noise.cc",F+"decorator.hh"],
 [("modifier classes",F+"modifiers/modifier.hh"),("parsed modifier",F+"modifiers/parsed-modifier.hh")],
 ["evaluate, get_bv_size, get_maximum, describe"])
p("P06","Parallel evaluation gives the sequential result",
 "For every population, every number of threads and every schedule, evaluating the population in parallel stores in each slot exactly the value sequential evaluation would store there, and then reports every individual once, in population order, to the controllers of the main function, so that counts, budgets, targets and progress records end as if the evaluation had been sequential. This holds for single-objective and multi-objective populations and for every algorithm that evaluates in parallel.",
 ["schedules","inputs","configurations"],"all populations, thread counts, thread schedules, controller stacks",
 "One unit test compares values for one population size with the machine's thread count; accounting and algorithm-level behaviour are not compared.",
 [A+"population.cc","lib/hnco/multiobjective/algorithms/population.cc",F+"controllers/controller.cc"],
 [("evaluate_in_parallel",A+"population.cc"),("update protocol of controllers",F+"controllers/controller.cc")],
 ["population values, tracker state, solutions of algorithms run with several threads"])
p("P07","Linear algebra over the two-element field is correct",
 "For every bit matrix and bit vector (any shape, singular or not), products, transposes, ranks, echelon forms, inverses, triangular and general system solving, and elementary row or column operations agree with their definitions over the two-element field. A solver reports success exactly when it returns a genuine solution of a uniquely solvable system, and inversion succeeds exactly for invertible matrices and returns the inverse.",
 ["inputs"],"all matrices and vectors over GF(2), including singular, rectangular, and single-row/column ones",
 "Unit tests use random square matrices of a few sizes; singular, rectangular and degenerate shapes are barely sampled.",
 ["lib/hnco/bit-matrix.cc","lib/hnco/bit-vector.cc","lib/hnco/bit-vector.hh","lib/hnco/sparse-bit-vector.cc"],
 [("bm_* operations","lib/hnco/bit-matrix.cc"),("bv_* operations","lib/hnco/bit-vector.cc")],
 ["results and output parameters of the linear algebra functions"])
p("P08","Maps between hypercubes are what they claim to be",
 "Translations, permutations, linear, affine, transvection-sequence, projection, injection and composed maps send every bit vector to its mathematically defined image, with the declared input and output sizes and a truthful surjectivity answer: a map declared surjective reaches every output, and simple maps that reach every output say so. Transvection sequences act as the product of their transvections, their matrix form agrees with them, and each random sampling mode only yields sequences with the property it is named after and the requested length.",
 ["inputs","histories"],"all maps, sizes, sampling modes, repeated use of one map object, all bit vectors",
 "Unit tests check surjectivity and a few transvection identities for fixed dimensions and always with freshly created objects.",
 ["lib/hnco/maps/map.cc","lib/hnco/maps/map.hh","lib/hnco/maps/transvection.cc","lib/hnco/maps/transvection.hh"],
 [("Map subclasses","lib/hnco/maps/map.cc"),("transvection sequences","lib/hnco/maps/transvection.cc")],
 ["map, get_input_size, get_output_size, is_surjective, sampled sequences"])
p("P09","Saving then loading restores an identical object",
 "Saving any function instance or map and loading it into another object (fresh, or already holding a different instance) yields an object that evaluates, maps, describes sizes and declares maxima exactly as the original on every bit vector, bit-for-bit for floating-point data. Saving does not alter the object, saving the loaded object again produces the same file, and a save which cannot be completed is reported. (Travelling salesman instances are excepted: saving them is documented as not implemented.)",
 ["inputs","histories"],"all function and map instances with their data (including extreme floating-point values), all target objects",
 "Unit tests round-trip one random instance per type into a fresh object and mostly compare with tolerance or on few vectors.",
 ["lib/hnco/serialization.hh",F+"collection","lib/hnco/maps/map.hh","lib/hnco/maps/transvection.hh"],
 [("save/load templates","lib/hnco/serialization.hh"),("serialize members",F+"collection/*.hh")],
 ["evaluate / map after load, bytes of the saved file"])
p("P10","Instance files are read faithfully or rejected cleanly",
 "A well-formed instance file in one of the supported text formats (DIMACS CNF with one clause per line, QUBO, TSPLIB, sudoku grid, number to factorise, bit-vector solution) yields the instance it describes, whatever its comments, blank space, ordering and number formatting. Any other file (text or archive), however truncated or corrupted, is rejected with an error exception or yields a usable instance as long as its declared size fits in memory; loading and evaluating never crash, read out of bounds, run forever or depend on uninitialised data or (for text files) on the instance loaded before, and an object whose loading failed can be loaded again.",
 ["inputs"],"all byte strings offered as instance files, and all renderings of valid instances",
 "No unit test loads a hand-written text instance, let alone a malformed one.",
 [F+"collection/max-sat.cc",F+"collection/qubo.cc",F+"collection/tsp.cc",F+"collection/sudoku.cc","lib/hnco/bit-vector.cc"],
 [("load_ / load of each text format",F+"collection/*.cc"),("bv_from_stream","lib/hnco/bit-vector.cc")],
 ["evaluate after load, exceptions"])
p("P11","Representations decode every bit string into the declared domain",
 "Every bit string of the declared length decodes to a value of the declared domain (integer interval, float interval closed below and open above up to rounding, complex rectangle, category set, explicit value set, permutation), and at full precision every domain value (for floats: the lower bound) is reached by some bit string. The number of bits is the one asked for, or the smallest which represents the interval or achieves the precision asked for. Codes follow the documented order: integers, categories and ranks of set values in binary with the least significant bit first (codes beyond the last value stand for the upper bound), floats regularly spaced with the most significant bit first, permutations by sorting the elements by key, ties broken at random. Bits outside the addressed slice never matter.",
 ["inputs","configurations"],"all representations, bounds, precisions, sizes, offsets and bit strings",
 "Unit tests sample a few fixed intervals and sizes and check only bounds on random strings.",
 ["lib/hnco/representations/integer.hh","lib/hnco/representations/float.hh","lib/hnco/representations/categorical.hh","lib/hnco/representations/permutation.hh","lib/hnco/representations/complex.hh","lib/hnco/representations/value-set.hh"],
 [("unpack and size","lib/hnco/representations/*.hh")],
 ["unpack, size"])
p("P12","Composite and parsed functions see the variables the bit vector encodes",
 "A function built from representations and a multivariate, mixed-type, universal or parsed function evaluates that function on the values decoded from consecutive disjoint slices of the bit vector, in the documented order, and its size is the total of the slices. Arithmetic expressions given as text evaluate to their mathematical value, up to rounding and wherever it is defined, in every number type, with variables in alphabetical order. Well-formed textual domain specifications build exactly the representation they describe; ill-formed ones end in a reported error or in a usable representation, never in a crash.",
 ["inputs","configurations","programs"],"all adapters, representation lists, expressions, domain specifications and bit vectors",
 "Existing tests evaluate a couple of fixed expressions; slice layout, mixed representations and the specification language are untested.",
 [F+"multivariate-function-adapter.hh",F+"universal-function-adapter.hh",F+"collection/parsed-multivariate-function.hh","lib/hnco/app/parser.cc","lib/hnco/app/make-multivariate-function-adapter.hh","lib/fparser"],
 [("unpack of adapters",F+"multivariate-function-adapter.hh"),("specification parser","lib/hnco/app/parser.cc")],
 ["evaluate, get_bv_size, parse results"])
p("P13","Neighbourhoods propose exactly the moves they promise",
 "For every sequence of proposals, acceptances and rejections, a proposed candidate differs from the current origin exactly at the reported flipped positions, which are distinct, in increasing order, in range and of a number the neighbourhood allows; accepting moves the origin to the candidate and rejecting restores it. Sampled and mutated vectors obey the same limits, every allowed move can be produced, a forbidden no-op move never is, and the observed number of flips follows the configured distribution.",
 ["histories","inputs","configurations"],"all neighbourhood kinds, sizes, radii, mutation rates, protocols sequences and seeds",
 "Unit tests check Hamming distances for one size per neighbourhood, never the accept/reject protocol or configuration changes in mid-life.",
 ["lib/hnco/neighborhoods/neighborhood.cc","lib/hnco/neighborhoods/neighborhood.hh"],
 [("propose/keep/forget/mutate/map","lib/hnco/neighborhoods/neighborhood.hh"),("bernoulli process, rejection sampling","lib/hnco/neighborhoods/neighborhood.cc")],
 ["get_candidate, get_origin, get_flipped_bits, mutate, map"])
p("P14","Enumerators visit every element exactly once",
 "The hypercube iterator visits every bit vector of its size exactly once, and the neighbourhood iterators visit every vector at exactly the prescribed Hamming distance of the origin exactly once and nothing else. This holds again after each restart and after each change of origin followed by a restart, and exhaustion is reported exactly then.",
 ["inputs","histories"],"all sizes, radii, origins, sequences of restarts and partial traversals",
 "Unit tests count elements for one or two sizes from a single origin and never restart a partially consumed iterator.",
 ["lib/hnco/iterator.cc","lib/hnco/neighborhoods/neighborhood-iterator.cc","lib/hnco/iterator.hh"],
 [("has_next/next/init","lib/hnco/iterator.cc"),("neighbourhood iterators","lib/hnco/neighborhoods/neighborhood-iterator.cc")],
 ["sequence of vectors returned"])
p("P15","Every algorithm reports a genuine solution of the problem it searched",
 "For every algorithm, problem, parameter setting and seed, every point evaluated has the problem's size with components 0 or 1, and the reported solution is a point with the reported value under the objective (to single precision for the algorithms of the embedded third-party library that compute in single precision). Algorithms that keep the best point seen report a value equal to the best one evaluated; when a run is cut short by a budget at any evaluation after its initial points, the reported solution is still genuine and at least as good as the best of the completed iterations (single-point algorithms: the best evaluated). The exhaustive search returns the global maximum.",
 ["inputs","configurations","fault_sequences","histories"],"all algorithms, functions, parameters, seeds, interruption points, repeated use and restarts",
 "The test suite never runs most algorithms, and never interrupts one or checks the reported solution.",
 [A+"algorithm.cc",A+"iterative-algorithm.cc",A+"evolutionary-algorithms",A+"local-search",A+"probability-vector",A+"walsh-moment",A+"mimic.cc",A+"fast-efficient-p3",A+"gomea",A+"decorators/restart.cc",A+"complete-search.cc",A+"random-search.cc"],
 [("update_solution / set_solution / finalize",A+"algorithm.cc")],
 ["points evaluated, reported solution"])
p("P16","Search effort matches the requested number of iterations",
 "An algorithm run for a given number of iterations spends exactly the number of objective evaluations that its population sizes, transitions and iteration count imply, with no hidden, skipped or repeated evaluation, and a restarted algorithm performs the prescribed number of complete runs and keeps the best of them. Parameter changes (population sizes, selection sizes, mutation rates, iteration counts) take effect on the next run.",
 ["inputs","configurations","histories"],"all algorithms, parameters, iteration counts, seeds and successive runs",
 "No unit test counts evaluations made by an algorithm.",
 [A+"iterative-algorithm.cc",A+"decorators/restart.cc",A+"evolutionary-algorithms",A+"probability-vector",A+"local-search"],
 [("main loop",A+"iterative-algorithm.cc"),("restart loop",A+"decorators/restart.cc")],
 ["number and order of evaluations seen by the function"])
p("P17","Local search climbs and stops only at local optima",
 "Steepest and first ascent hill climbing only ever move to strictly better neighbours, and when they stop before their iteration limit the reported point has no better neighbour in the chosen neighbourhood; steepest ascent moves to a best neighbour. Random local search, the (1+1) EAs and max-min ant search never replace the current point by a worse one, honour strict or non-strict comparison and patience, and simulated annealing and random walk only move between neighbours. The test whether a bit vector is locally maximal holds exactly when no neighbour is better.",
 ["inputs","configurations","histories"],"all functions, neighbourhoods, start points, comparison rules, patience settings and seeds",
 "No unit test inspects the trajectory or the optimality of local search results.",
 [A+"local-search/steepest-ascent-hill-climbing.cc",A+"local-search/first-ascent-hill-climbing.cc",A+"local-search/random-local-search.cc",A+"local-search/simulated-annealing.cc",A+"local-search/random-walk.cc",A+"evolutionary-algorithms/self-adjusting-one-plus-one-ea.cc"],
 [("iterate of local search algorithms",A+"local-search/*.cc")],
 ["sequence of evaluated points, reported solution"])
p("P18","Ranking and selection operators respect fitness",
 "Sorting a population orders it by decreasing value without losing or duplicating individuals, partial sorting puts the best ones first, and the equivalence class of an individual is exactly the run of equal values. Plus and comma selection keep the best individuals with their own values; tournament selection returns the best individual of a tournament among distinct individuals, and the tournaments of a round are disjoint; uniform, proportionate and Boltzmann selection return members with the advertised probabilities; crossover takes each bit from one of the parents.",
 ["inputs","histories"],"all populations (with ties, duplicates, extreme values), selection sizes, tournament sizes, seeds and sequences of selections",
 "Unit tests only sort one random population; selection operators are not tested for what they select.",
 [A+"population.hh",A+"population.cc",A+"evolutionary-algorithms/selection.hh",A+"evolutionary-algorithms/random-selection.cc",A+"evolutionary-algorithms/crossover.cc","lib/hnco/multiobjective/algorithms/random-selection.hh"],
 [("sort/partial_sort/get_equivalent_bvs",A+"population.hh"),("selection operators",A+"evolutionary-algorithms/selection.hh")],
 ["population content and order, selected individuals"])
p("P19","A seed determines the whole run",
 "With the same seed and parameters, random instance generation, every sampler and every algorithm reproduce exactly the same sequence of evaluated points, the same logs and the same result, whatever ran before in the process, and re-running after reseeding an algorithm object that keeps a single current point, or a model-based algorithm on a function without ties, repeats its run (other population-based objects carry the order of their population over, which only changes how ties are broken). Resetting the generator replays the stream from the seed, and different seeds are not silently ignored.",
 ["inputs","histories","configurations"],"all seeds, algorithms, instance generators and preceding activity",
 "No unit test compares two runs with equal seeds.",
 ["lib/hnco/random.cc","lib/hnco/random.hh",A],
 [("global generator","lib/hnco/random.cc")],
 ["sequence of evaluated points, generated instances, solutions"])
p("P20","Model-based algorithms learn the model of the selected points",
 "After each iteration the probability vector of a univariate model-based algorithm (PBIL, its variant with negative selection, UMDA, compact GA, max-min ant system) is exactly the documented update of the previous one by the selected points of that iteration, kept within its bounds, and new points are drawn from it (for the variants with random affine maps, through a random map of the prescribed length). Moment models are the averages of the Walsh features of the points added, all their operations (update, difference, bounding, norms, distance) follow their definitions in both storage layouts, and herding and Gibbs sampling produce points by the rule those moments define.",
 ["inputs","histories","configurations"],"all functions, population and selection sizes, learning rates, bounds, seeds and iteration counts; all moment vectors",
 "Unit tests check a few moment identities and that herding converges on one target; no test checks a model update.",
 [A+"probability-vector",A+"walsh-moment",A+"mimic.cc"],
 [("probability vector operations",A+"probability-vector/probability-vector.cc"),("moments",A+"walsh-moment/walsh-moment.cc"),("herding",A+"walsh-moment/herding.cc"),("Gibbs sampler",A+"walsh-moment/gibbs-sampler.cc")],
 ["logged probability vectors, moments, sampled points"])
p("P21","Walsh analysis is exact and invertible",
 "The Walsh transform of any function is the same whether computed directly or by the fast algorithm, equals the sums over all bit vectors of the function times the parity functions (the documented convention: 2^n times the averages; exactly so for integer-valued functions), contains no duplicate, zero or missing term, takes one evaluation of each bit vector, and the Walsh expansion built from it, divided by 2^n, reproduces the function on every bit vector, up to rounding. The special expansions of order one and two, the Ising models and linear functions agree with the general expansion having the same coefficients.",
 ["inputs"],"all functions of tractable size, all coefficient sets",
 "Unit tests transform random expansions of one size back; other functions and the agreement of the two algorithms on arbitrary functions are sampled thinly.",
 [F+"function.cc",F+"collection/walsh",F+"collection/ising"],
 [("walsh transform computation",F+"function.cc"),("walsh expansions",F+"collection/walsh")],
 ["terms returned, evaluate"])
p("P22","Multi-objective search returns a true non-dominated set",
 "Domination is the strict Pareto order for minimisation, and front numbers equal the ranks obtained by repeatedly removing the non-dominated points of the population. The solutions returned by the multi-objective evolutionary algorithm are evaluated points with their own objective values, mutually non-dominated, none dominated by any point of the final population; a full first front smaller than the population is never lost from one generation to the next, survivors are taken by front and then by crowding distance so that the best value of each objective is kept, offspring descend from tournament winners, and the run spends exactly the prescribed evaluations, also when an algorithm object is used again.",
 ["inputs","histories","configurations"],"all value sets (ties, duplicates, any number of objectives), functions, parameters, seeds and successive runs",
 "One unit test compares fronts on small random populations with a naive method; the algorithm itself is never run.",
 ["lib/hnco/multiobjective/algorithms/pareto-front-computation.hh","lib/hnco/multiobjective/algorithms/nsga2.cc","lib/hnco/multiobjective/algorithms/nsga2.hh","lib/hnco/multiobjective/functions/value.hh","lib/hnco/multiobjective/functions/multivariate-function-adapter.hh"],
 [("dominates","lib/hnco/multiobjective/functions/value.hh"),("front computation","lib/hnco/multiobjective/algorithms/pareto-front-computation.hh"),("NSGA-II loop","lib/hnco/multiobjective/algorithms/nsga2.cc")],
 ["front numbers, evaluated points, returned solutions"])
p("P23","The command-line tools report consistent, reproducible results",
 "For every combination of function, map, wrapper, algorithm and option accepted on the command line, a run with a given seed prints the same results every time (with any number of threads, for functions without randomness), and they are those of the library run with the named function, map, algorithm and parameters, options left out having their documented defaults. The reported value is the value obtained when the saved solution is loaded back, a reported success means the target or maximum was reached, and the number of evaluations never exceeds the budget. Instances and maps written by the generator tools have the requested form and load back in the optimiser as the same function or map. Unknown functions, maps, algorithms, neighbourhoods and options, sizes and thread numbers that are not positive, missing or malformed files, solutions of the wrong size, malformed expressions and representations, and requests for an unknown maximum end with an error message and a failure status instead of a crash.",
 ["inputs","configurations","programs"],"all command lines built from the tools' option grammar",
 "The unit tests never run the command-line programs.",
 ["app/hnco.cc","app/hnco-mo.cc","app/ffgen.cc","app/mapgen.cc","lib/hnco/app","lib/hnco/multiobjective/app"],
 [("application flow","lib/hnco/app/application.cc"),("factories","lib/hnco/app/function-factory.cc")],
 ["standard output, exit status, result and solution files"])
p("P24","Bit vector and permutation primitives obey their laws",
 "Conversions of bit vectors to and from text, booleans, integers and streams are inverse to each other; weights, distances, dot products, flips, sums and sparse counterparts agree with their componentwise definitions, and random bit vectors have exactly the requested weight. Permutation operations always yield valid permutations, validity tests accept exactly the permutations, and shuffles reach every arrangement.",
 ["inputs"],"all bit vectors, sparse bit vectors, texts, integers and permutations",
 "Unit tests check a few conversions at one size.",
 ["lib/hnco/bit-vector.cc","lib/hnco/bit-vector.hh","lib/hnco/sparse-bit-vector.cc","lib/hnco/permutation.cc","lib/hnco/permutation.hh","lib/hnco/util.hh"],
 [("bv_* functions","lib/hnco/bit-vector.cc"),("perm_* functions","lib/hnco/permutation.cc")],
 ["return values and output parameters"])
p("P25","Evolutionary algorithms follow their published scheme",
 "In (mu+lambda) and (mu,lambda) evolutionary algorithms every offspring is a mutant of a current parent chosen uniformly at random; in the genetic algorithm offspring are mutants of tournament winners of the current generation, or of crosses of two of them, at the given rates; in the (1+(lambda,lambda)) genetic algorithm all mutants of a phase are at one common random distance from the current point, offspring are crosses of the current point with a best mutant with the given bias, and a best offspring replaces the current point when it is not worse. Self-adapting mutation rates (self-adjusting (1+1), two-rate (1+lambda), information-theoretic evolutionary algorithm with each of its replacement strategies, learning and weights) are exactly the documented function of the values observed, stay within their bounds, and the bits flipped follow the rate in force.",
 ["inputs","histories","configurations"],"all functions (with or without ties), population sizes, rates, biases, strategies, seeds and iteration counts, objects run again with other parameters",
 "Unit tests only check that algorithms find an easy maximum; no test observes which parents, distances or rates are used.",
 [A+"evolutionary-algorithms"],
 [("(1+(lambda,lambda)) GA",A+"evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc"),("two-rate EA",A+"evolutionary-algorithms/two-rate-one-plus-lambda-ea.cc"),("information-theoretic EA",A+"evolutionary-algorithms/it-ea.cc"),("(mu+lambda) EA",A+"evolutionary-algorithms/mu-plus-lambda-ea.cc"),("GA",A+"evolutionary-algorithms/genetic-algorithm.cc")],
 ["sequence of evaluated points, logged rates and centres"])
p("P26","From Python the library behaves as from C++",
 "Every function, map, neighbourhood, iterator, representation, controller, modifier, population and algorithm exposed to Python, built with the same arguments and settings and the same random seed, gives the same values, texts, files, moves, evaluated points and solutions as the C++ object. Functions and algorithms written in Python are called by the library with the right arguments and used exactly as C++ ones, including functions loaded from a Python file; signals and errors reach Python as exceptions; and an object built on others keeps them alive.",
 ["inputs","histories","configurations"],"all exposed classes, arguments, settings, seeds, nestings of objects, call sequences and errors raised in Python",
 "The repository has no test of the bindings.",
 ["bindings/hnco.cc","lib/hnco/functions/collection/python-function.cc"],
 [("bound classes","bindings/hnco.cc"),("functions from a Python file","lib/hnco/functions/collection/python-function.cc")],
 ["values and exceptions seen from Python, sequence of evaluated points"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import sys
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
