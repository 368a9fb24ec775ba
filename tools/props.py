PBT = "property-based testing"
prop("P01", "Serialization round trips every kind of object",
 "Serializing any object (parameters, distributions, expressions, spaces, trees, configurations, features, evaluations, tuners, maps, generators) and deserializing the result gives an object that is observably identical through every accessor, including the objects it refers to and its future behaviour under the same random state. Within one space the parameters, and within one tuner the spaces and the evaluations, are shared in the copy as they were in the original (immutable expressions and distributions may be duplicated). Copying the copy again gives the same object, and the handle map given leads from each original to its copy. Objects stored in a map come back as identifiers.",
 ["inputs", "histories"], "every object graph a program can build through the API, including after edits (conditions, clauses, distributions, told evaluations)",
 "The tests round trip one or two hand written objects per type and compare a few fields.",
 ["src/*_deserialize.h", "src/cconfigspace.c", "src/parameter_*.c", "src/distribution_*.c", "src/expression.c", "src/configuration_space.c", "src/tuner_random.c", "src/tree*.c"],
 [("per type serialize/deserialize callbacks", "src/*_deserialize.h"), ("handle map rebinding shared references", "src/cconfigspace.c")],
 PBT + ": generated object graphs, deep observational comparison of original and copy",
 "Generated-input search; graphs of bounded size; equality through every public accessor plus seeded sampling.")
prop("P02", "All serialization transports agree and never write out of bounds",
 "The announced size, the memory buffer, the file name, and the blocking or non-blocking file descriptor routes all carry the same bytes for the same object: a buffer of exactly the announced size is always enough and is filled completely, a smaller buffer is refused without any write outside it, and a non-blocking transfer fed or drained in pieces of any size, resumed any number of times, gives the same object as a blocking one. Reading truncated input, or an end of file, reports an error instead of blocking or returning an object.",
 ["inputs", "schedules", "fault_sequences"], "every object, every buffer size, every chopping of the stream into partial reads and writes",
 "Tests use one regular file and a pipe that always has room; partial transfers at each offset are never produced.",
 ["src/cconfigspace.c", "src/cconfigspace_internal.h"],
 [("size pass followed by write pass", "src/cconfigspace_internal.h"), ("descriptor state kept across calls", "src/cconfigspace.c")],
 PBT + ": generated objects and chunk schedules over pipes, differential between transports",
 "Generated-input search over objects, sizes and chunk schedules; the pipe schedule is owned by the harness.")
prop("P03", "Deserializing any bytes is memory safe and leaves nothing behind",
 "Deserializing arbitrary or corrupted bytes (any truncation, bit flip, splice or length field) never reads or writes outside its buffers, never crashes, aborts or hangs, and either reports an error and leaves no allocated memory, or returns an object that can be used and released normally (the internal state of a random generator, which is an opaque blob, aside). The input buffer is never modified.",
 ["inputs", "fault_sequences"], "every byte string up to a bounded size, biased to mutations of valid streams of every object type",
 "Tests never feed a malformed stream.",
 ["src/*_deserialize.h", "src/cconfigspace_internal.h", "src/cconfigspace.c"],
 [("bounds checked primitive readers", "src/cconfigspace_internal.h"), ("validation through the object constructors", "src/*_deserialize.h")],
 "coverage-guided fuzzing of structured mutations with a safety and leak oracle",
 "Coverage-guided mutation of valid streams with ASan and an allocation balance; allocation sizes capped.")
prop("P04", "Objects live exactly as long as they are referenced",
 "An object stays alive and usable while any user reference or any other live object that refers to it exists, and is destroyed, exactly once, when the last of these goes away, whatever the order of releases. Its destruction callbacks each run exactly once, most recently attached first, while user data is still readable, and when everything is released no memory remains.",
 ["histories"], "every interleaving of creations, retains, releases and edits over every object type",
 "Tests release objects in one order and never count allocations or callback runs.",
 ["src/cconfigspace.c", "src/*.c"],
 [("reference count in the object header", "src/cconfigspace.c"), ("retain on store, release on delete in every type", "src/*.c")],
 PBT + ": stateful generation against an ownership graph model with allocation accounting",
 "Generated histories; model of ownership edges; ASan for use after free; allocation balance for leaks.")
prop("P05", "A rejected call changes nothing",
 "A call that is refused because of its arguments reports an error, gives nothing back, and leaves every object it was given exactly as it was: same contents, same references, same memory. (A batch of additions stops at the first refused element.) Null handles, null outputs, objects of the wrong kind where the function names a concrete kind, indexes out of range and inconsistent sizes are refused rather than followed.",
 ["inputs", "histories"], "every public function, every object state, every single invalid argument",
 "Tests check a few error codes on fresh objects and never compare the state before and after.",
 ["src/*.c"],
 [("argument checks before any change", "src/cconfigspace_internal.h"), ("error unwinding paths", "src/*.c")],
 PBT + ": generated objects and invalid calls, state and allocation snapshots before and after",
 "Generated-input search over (object state, function, defect) triples with snapshot comparison.")
prop("P06", "Intervals behave as the sets of numbers they denote",
 "Membership, emptiness, intersection and equality of intervals agree with the sets of integers or reals the intervals denote, for every combination of bounds and of included or excluded ends, and the union of two intervals is the smallest interval holding both. Mixing integer and floating point intervals is refused.",
 ["inputs"], "all pairs of integer or floating point intervals, including extreme, infinite and adjacent bounds",
 "Tests cover about twenty hand chosen pairs.",
 ["src/interval.c", "include/cconfigspace/interval.h"],
 [("interval operations", "src/interval.c")],
 PBT + ": set-theoretic oracle on generated interval pairs",
 "Generated-input search, dense on small integers; membership of every boundary-adjacent point is compared.")
prop("P07", "Distribution samples stay inside the announced bounds and grid",
 "Every value produced by a uniform, normal, roulette, mixture or multivariate distribution has the announced type, lies within the bounds the distribution announces, and falls on its quantization grid, for every legal choice of parameters, scale and seed. The answer to whether a sampling interval would need oversampling is false exactly when that interval contains every value the distribution can announce.",
 ["inputs"], "every legal distribution (nested mixtures and multivariates included), every seed, every sample count",
 "Tests sample a handful of well behaved distributions.",
 ["src/distribution_uniform.c", "src/distribution_normal.c", "src/distribution_roulette.c", "src/distribution_mixture.c", "src/distribution_multivariate.c", "src/distribution.c"],
 [("sampling callbacks", "src/distribution_*.c"), ("bounds and oversampling queries", "src/distribution.c")],
 PBT + ": generated distributions, membership oracle on each sample",
 "Generated-input search including extreme and narrow ranges.")
prop("P08", "Distributions follow the law they were created with",
 "The frequencies of the values drawn from a distribution follow its definition: uniform over its range or grid (linear or logarithmic), normal with the given mean and deviation (truncated or rounded when quantized), roulette by its areas, mixture by its weights, and multivariate components independently. The law does not depend on how many values are drawn per call.",
 ["inputs"], "every legal distribution with moderate parameters",
 "Tests check a mean and a deviation with a loose tolerance for one instance of each.",
 ["src/distribution_uniform.c", "src/distribution_normal.c", "src/distribution_roulette.c", "src/distribution_mixture.c", "src/distribution_multivariate.c"],
 [("sampling callbacks", "src/distribution_*.c")],
 PBT + ": generated distributions, goodness of fit to an independently computed law",
 "Statistical oracle at a significance below 1e-9 per case with fixed seeds; small law changes stay invisible.")
prop("P09", "Every sampling route gives the same kind of values in the right places",
 "Sampling one value, many values, strided values, per-component arrays (with any component left out), and through parameters fill exactly the requested places with values of the distribution and touch nothing else. With the same generator state the same request gives the same values, the generator's state is the only thing that influences them, and accessors report what was passed at creation.",
 ["inputs", "histories"], "every distribution, count, stride, offset, absent component, seed",
 "Tests use one stride and one layout.",
 ["src/distribution.c", "src/distribution_*.c", "src/rng.c"],
 [("samples, strided and array sampling callbacks", "src/distribution_*.c"), ("generator wrapper", "src/rng.c")],
 PBT + ": differential between sampling routes with guard cells, seed replay",
 "Generated-input search over layouts; exact comparison under equal seeds.")
prop("P10", "Parameters accept exactly the values of their domain",
 "A parameter reports a value as valid exactly when it belongs to the declared domain (type and half open range for numbers, listed values for categorical, ordinal and discrete ones, any string for string ones), returns its own copy of valid values, and reports the declared name, type, default, bounds and values. Ordinal values compare in their declared order, and declarations that are inconsistent (empty ranges, defaults outside, repeated values) are refused.",
 ["inputs"], "every parameter declaration and every datum, including neighbours of the bounds and values of the wrong type",
 "Tests check a few values on one parameter of each kind.",
 ["src/parameter_numerical.c", "src/parameter_categorical.c", "src/parameter_string.c", "src/parameter.c"],
 [("value checks and validation", "src/parameter_*.c")],
 PBT + ": generated parameters against a declarative domain model",
 "Generated-input search against a model written from the documentation.")
prop("P11", "Sampling a parameter only yields values of its domain",
 "Sampling a parameter with any compatible one-dimensional distribution, alone or in batches of any size, yields only values of the parameter's domain, each value that the distribution can reach inside the domain being reachable; converting numeric samples maps each in-range sample to the value it stands for and each out-of-range one to inactive. When the domain is out of reach an error is reported.",
 ["inputs"], "every parameter, distribution (covering, overlapping or disjoint), batch size and seed",
 "Tests use default distributions and one normal distribution.",
 ["src/parameter_numerical.c", "src/parameter_categorical.c", "src/parameter.c"],
 [("rejection with growing oversampling", "src/parameter_*.c"), ("sample conversion", "src/parameter_*.c")],
 PBT + ": generated parameter and distribution pairs, domain membership oracle",
 "Generated-input search; memory accounting on unsuccessful sampling.")
prop("P12", "Objective and feature spaces accept exactly their valid points",
 "A features value set or an evaluation is reported valid exactly when it belongs to the space, has one value per parameter and each value is in the parameter's domain. Objectives are reported back in order with their direction, computed objective values equal the objective expressions applied to the evaluation's values, and objectives over foreign parameters or parameters with a name already used are refused.",
 ["inputs", "histories"], "every space, every set of values, every set of objectives",
 "Tests build one space of three parameters.",
 ["src/objective_space.c", "src/features_space.c", "src/features.c", "src/evaluation.c", "src/context.c"],
 [("per parameter checks", "src/objective_space.c, src/features_space.c"), ("objective evaluation", "src/evaluation.c")],
 PBT + ": generated spaces and points against a reference model",
 "Generated-input search against a reference model.")
prop("P13", "A configuration is valid exactly when the rules of its space say so",
 "A configuration (given as object or as values) is reported valid exactly when it gives each active parameter a value of its domain, marks exactly the parameters whose condition does not hold as inactive, and satisfies no forbidden clause; conditions see the values of the parameters they depend on, whatever the order in which parameters and conditions were declared. Checking never modifies the configuration or the space.",
 ["inputs", "histories"], "every acyclic space of conditions and clauses, every assignment of values, valid, nearly valid or arbitrary",
 "Tests use two or three parameters and one dependency chain.",
 ["src/configuration_space.c", "src/configuration.c", "src/expression.c"],
 [("topologically ordered activation", "src/configuration_space.c"), ("clause evaluation", "src/configuration_space.c")],
 PBT + ": generated spaces and assignments against a reference semantics",
 "Generated-input search against an independent implementation of the semantics.")
prop("P14", "Every configuration a space hands out is valid",
 "Every default configuration and every sampled configuration, one at a time or in batches, is valid according to the rules of its space, belongs to it, and has inactive exactly where the conditions say so; every valid configuration reachable by the parameter distributions can be sampled. When valid configurations cannot be found an error is reported and nothing is handed out.",
 ["inputs", "histories"], "every space, distribution assignment, generator seed and batch size",
 "Tests sample hundreds of configurations of one or two spaces.",
 ["src/configuration_space.c"],
 [("rejection sampling with activation pass", "src/configuration_space.c")],
 PBT + ": generated spaces, independent validity oracle on each sample",
 "Generated-input search; reachability checked on tiny spaces only.")
prop("P15", "Editing a space keeps its dependency structure consistent",
 "After any sequence of accepted and refused additions of parameters, conditions and forbidden clauses, a space reports exactly the accepted ones, in order, and its behaviour (defaults, activation, validation) is the one obtained by building a space with only the accepted edits. Edits that would create a dependency cycle, reuse a name, refer to foreign parameters or make the default configuration forbidden are refused.",
 ["histories"], "every sequence of edits on a configuration space",
 "Tests build each space once, with edits that succeed, except one cycle.",
 ["src/configuration_space.c", "src/context.c", "src/context_internal.h"],
 [("dependency graph and ordering", "src/configuration_space.c"), ("name lookup", "src/context.c")],
 PBT + ": stateful generation of edit sequences against a model space",
 "Generated histories; after each step all observations are compared with the model.")
prop("P16", "Joint and single distributions assigned to a space are tracked exactly",
 "At any time each parameter of a space is governed by exactly one component of one distribution: the last assigned one, or its default once a joint distribution it took part in has been displaced; queries report that assignment. Sampling draws each joint distribution once per configuration and gives each component to the parameter it was assigned to, in any parameter order.",
 ["histories"], "every sequence of single and joint distribution assignments, in any index order",
 "Tests assign one multivariate distribution once or twice.",
 ["src/configuration_space.c", "src/distribution.c"],
 [("distribution wrappers with parameter indexes", "src/configuration_space.c")],
 PBT + ": stateful assignment sequences against a bookkeeping model, correlated components observed in samples",
 "Generated histories against a model; component identity observed by disjoint supports.")
prop("P17", "Expressions evaluate according to their documented semantics",
 "The value of any expression on any binding of its variables is the one given by the operators' definitions over integers, floats, booleans, strings, none and inactive values, with exact type rules: numbers compare and combine across integers and floats, strings compare by bytes, values of an ordinal parameter by rank, an inactive operand makes the result inactive except that \"or\" is true as soon as one operand is and membership as soon as an element matches. Ill-typed or undefined operations (a division by zero, an unordered comparison, a value foreign to the parameter it is compared with) report an error instead of a value, and integer overflow never traps. Evaluation has no side effect and does not depend on how the expression was assembled.",
 ["programs", "inputs"], "every expression tree and every binding",
 "Tests evaluate each operator on a few operands.",
 ["src/expression.c"],
 [("per operator evaluation", "src/expression.c")],
 PBT + ": generated expression trees against a reference evaluator",
 "Generated-input search; trees of bounded depth.")
prop("P18", "Expressions report their structure and variables truthfully",
 "An expression reports the operator, operands, arity and parameters it was built from, listing each parameter it uses exactly once however deeply or often it occurs. Checking an expression against a space succeeds exactly when every such parameter belongs to the space, and malformed trees (wrong arity, wrong operand kinds) are refused at creation.",
 ["programs"], "every expression tree and every space",
 "Tests inspect three or four expressions.",
 ["src/expression.c", "src/parameter.c"],
 [("parameter collection", "src/expression.c"), ("context check", "src/expression.c")],
 PBT + ": generated trees, structural reference model",
 "Generated-input search with shared subexpressions.")
prop("P19", "Bindings store and return exactly the values put in them",
 "A configuration, features set or evaluation returns by position and by name exactly the last value stored there, keeps its own copy of string values given as transient, which the caller may then discard, and leaves the other values alone; batch reads fill the caller's array completely and writes outside the space are refused. Its validity queries always reflect its current content.",
 ["histories"], "every sequence of reads and writes by index, name or batch on every kind of binding",
 "Tests set and read back one or two values.",
 ["src/binding.c", "src/context.c", "src/configuration.c", "src/features.c", "src/evaluation.c"],
 [("positional storage with name lookup", "src/binding.c, src/context.c")],
 PBT + ": stateful read and write sequences against an array model",
 "Generated histories with scribbled temporary strings.")
prop("P20", "Comparison is a total order consistent with equality and hashing",
 "Comparing configurations, features, evaluations (of any kind, including mixed kinds through the generic binding interface) or tree configurations is reflexive, antisymmetric and transitive; they compare equal exactly when their kind of content is the same, and equal ones have equal hashes. Comparison and hashing depend only on content, never on how or when the object was built, and never modify it.",
 ["inputs"], "all pairs and triples of bindings of the same space, and of different spaces",
 "Tests compare two or three configurations.",
 ["src/binding.c", "src/datum_hash.h", "src/configuration.c", "src/evaluation.c", "src/features_evaluation.c", "src/tree_configuration.c", "src/tree_evaluation.c"],
 [("datum comparison and hashing", "src/datum_hash.h"), ("binding comparison", "src/binding.c")],
 PBT + ": algebraic laws on generated families with near duplicates",
 "Generated-input search over families of near duplicates.")
prop("P21", "Evaluations compare by Pareto dominance",
 "Comparing two successful evaluations of one objective space says better, worse, equivalent or not comparable exactly as Pareto dominance of their objective values under the declared minimize and maximize directions, the comparison being antisymmetric and transitive. Failed evaluations and evaluations of different spaces are refused; evaluations for different features, and values that cannot be ordered (not numbers, NaN, integers against floats), are not comparable.",
 ["inputs"], "all pairs and triples of evaluations, every number and direction of objectives, ties included",
 "Tests compare four evaluations with two objectives.",
 ["src/evaluation.c", "src/features_evaluation.c", "src/tree_evaluation.c"],
 [("objective comparison", "src/evaluation.c")],
 PBT + ": generated evaluations against an independent dominance test",
 "Generated-input search with dense ties.")
prop("P22", "The random tuner remembers exactly what it was told",
 "After any sequence of ask, tell and suggest, a random tuner's history is exactly the successful evaluations it was told, in order, its optima are exactly the non-dominated ones with one representative for each equivalent group, and its suggestions are configurations of optima, any of which can come. Asked configurations are always valid for its space and a refused tell changes nothing.",
 ["histories"], "every sequence of operations, every set of objective values including ties and failed evaluations",
 "Tests run one loop of a hundred steps and check the final optimum.",
 ["src/tuner_random.c", "src/tuner.c"],
 [("incremental optima maintenance", "src/tuner_random.c")],
 PBT + ": stateful generation against a naive Pareto archive",
 "Generated histories against a naive archive.")
prop("P23", "The features tuner keeps a separate archive for each set of features",
 "After any sequence of operations, a random features tuner's history and optima for given features are exactly the successful evaluations told with these features and their non-dominated subset, other features never interfering, and suggestions for features are configurations of their optima, any of which can come. Queries without features give the union.",
 ["histories"], "every sequence of operations over several features values",
 "Tests run one loop and check one features value.",
 ["src/features_tuner_random.c", "src/features_tuner.c"],
 [("per features optima maintenance", "src/features_tuner_random.c")],
 PBT + ": stateful generation against a naive archive keyed by features",
 "Generated histories against a naive archive.")
prop("P24", "The tree tuner remembers exactly what it was told",
 "After any sequence of ask, tell and suggest over a tree space, a random tree tuner's history is exactly the successful evaluations told, in order, its optima exactly the non-dominated ones, and its suggestions are configurations of optima, any of which can come. Asked tree configurations are always valid positions of its space.",
 ["histories"], "every sequence of operations over static and dynamic tree spaces",
 "Tests run one loop on one tree.",
 ["src/tree_tuner_random.c", "src/tree_tuner.c"],
 [("incremental optima maintenance", "src/tree_tuner_random.c")],
 PBT + ": stateful generation against a naive Pareto archive",
 "Generated histories against a naive archive.")
prop("P25", "User defined tuners and tree spaces are driven exactly through their callbacks",
 "Each operation on a user defined tuner, features tuner or tree space calls the matching user callback once, with the caller's arguments and the user's data, and hands back what the callback produced, or its error; absent optional callbacks are refused as unsupported. The delete callback runs exactly once, and user state written by the serialization callback is handed unchanged to the deserialization callback.",
 ["histories", "fault_sequences"], "every sequence of operations, every callback result including errors",
 "Tests implement one tuner whose callbacks always succeed.",
 ["src/tuner_user_defined.c", "src/features_tuner_user_defined.c", "src/tree_tuner_user_defined.c", "src/tree_space_dynamic.c"],
 [("callback forwarding", "src/*_user_defined.c")],
 PBT + ": stateful generation with recording callbacks and injected callback errors",
 "Generated histories with recording stand-ins for user callbacks.")
prop("P26", "Trees keep their structure, positions and weights consistent",
 "After any sequence of attachments and weight or bias changes, each tree node reports the parent, index, depth, position, children and values that follow from the attachments made, positions and nodes map to each other, and attaching where a child exists, a node that already has a parent, or a node to its own descendant is refused. Releasing part of a tree never invalidates what is still referenced.",
 ["histories"], "every sequence of tree edits",
 "Tests build one small tree.",
 ["src/tree.c"],
 [("parent and child links, position walk", "src/tree.c")],
 PBT + ": stateful generation against a model forest",
 "Generated histories against a model forest.")
prop("P27", "Tree spaces give valid positions, and sample them by their weights",
 "Positions and tree configurations of a static or dynamic tree space are valid exactly when they lead from the root along existing children to a node of its tree or, as their last step, to an empty child slot. Values reported for a position are those on the path from the root, and are refused where there is no node. Sampled configurations are valid and follow the law defined by node weights and child biases (an empty slot weighs 1), re-evaluated after each change. A dynamic space asks its user for a child only when a position passing through it is checked or fetched, and never again once the child was given.",
 ["inputs", "histories"], "every tree shape, weight and bias assignment, every position, valid or not",
 "Tests sample one tree and compare frequencies once.",
 ["src/tree.c", "src/tree_space.c", "src/tree_space_static.c", "src/tree_space_dynamic.c", "src/tree_configuration.c"],
 [("weighted descent", "src/tree.c"), ("position checks", "src/tree_space.c")],
 PBT + ": generated trees against a model, goodness of fit of sampled positions",
 "Generated-input search; statistical oracle below 1e-9 per case.")
prop("P28", "A map is a dictionary",
 "After any sequence of sets, deletions, clears and lookups, a map contains exactly the last value set for each key not deleted since, whatever the types of keys and values; enumerations report each pair exactly once, keys with their own values. Strings and objects stored stay valid as long as they are in the map.",
 ["histories"], "every sequence of map operations over keys and values of every type",
 "Tests set a handful of keys.",
 ["src/map.c", "src/datum_hash.h"],
 [("hash table keyed by datum", "src/map.c")],
 PBT + ": stateful generation against a reference dictionary",
 "Generated histories with colliding and near equal keys.")
prop("P29", "Errors are reported in the thread that caused them, and only there",
 "After a failing call the calling thread's error stack holds that error, with its code and a trace of where it passed, until it is fetched or cleared; it never shows in other threads, however their calls interleave, and a fetched error belongs to the caller. Error codes and names correspond one to one.",
 ["schedules", "histories"], "every interleaving of failing calls, fetches and clears over several threads",
 "Tests use one thread.",
 ["src/error_stack.c", "src/cconfigspace.c"],
 [("thread local error slot", "src/error_stack.c")],
 PBT + ": generated multi-thread schedules owned by the harness against a per-thread model",
 "Generated schedules; threads stepped one operation at a time, so only operation-level interleavings.")
prop("P30", "Running out of memory is reported, not fatal",
 "When a single allocation made by the library fails during a public call on valid or invalid arguments, the call neither crashes nor ends the process: it returns an error (out of memory, unless the call fails for another reason anyway), hands out no object, leaks nothing, and leaves every object it was given as it was (an addition of several elements at once may keep the first ones, and a random tuner may pass over an evaluation whose comparison failed). The same call made again once memory is back does what it would have done, and everything can still be released.",
 ["fault_sequences"], "every public call, every allocation point in it, every history before it",
 "Tests never make an allocation fail.",
 ["src/*.c", "src/utarray.h"],
 [("allocation checks and unwinding", "src/*.c"), ("array and hash growth", "src/utarray.h, src/uthash.h users (utarray_oom, uthash_nonfatal_oom)")],
 "fault injection: generated object graphs and calls with the n-th allocation failing, snapshot and live-allocation oracles",
 "Generated programs times injected allocation faults; one failure at a time, only allocations made by the library itself fail, not those inside GSL.")
prop("P31", "Expressions and values mean the same in Python as in the library",
 "An expression written as text and parsed by the Python bindings is the one built node by node with the grammar's operator precedence (or, and, equality, comparison, sum, product, unary, membership) and left associativity, whatever the spacing and redundant parentheses; it evaluates to the same value or the same error as the library gives for it, names the same parameters, and the text it prints parses back to the same expression. The same holds for texts given as conditions, forbidden clauses and objectives. None, booleans, 64 bit integers, doubles (bit for bit), strings without NUL of any alphabet and the inactive value cross the boundary unchanged, and a map of them behaves as a dictionary.",
 ["programs", "inputs"], "every expression of the text grammar, every spelling of it and every value",
 "Tests parse a few expressions.",
 ["bindings/python/cconfigspace/expression_parser.py", "bindings/python/cconfigspace/expression.py", "bindings/python/cconfigspace/base.py", "bindings/python/cconfigspace/map.py", "src/expression.c"],
 [("grammar built from the library's tables", "bindings/python/cconfigspace/expression_parser.py"), ("printing with parentheses", "bindings/python/cconfigspace/expression.py"), ("conversion of values", "bindings/python/cconfigspace/base.py")],
 PBT + ": generated expressions in generated spellings against a reference precedence printer and node by node construction; generated values and map histories",
 "Generated-input search through the Python interpreter (hypothesis) on a library built with AddressSanitizer.")
prop("P32", "Python objects and callbacks mirror the library",
 "Every argument a parameter, distribution, interval, space, binding, tree, tuner or error stack is created with in Python is what its Python accessors report and what the library itself reports for its handle, also for the wrapper rebuilt from the handle and for the object read back from a serialized copy, which has the same Python class. Samples, checks, comparisons, hashes and conversions equal those of the library under the same random state. Wrappers keep their object alive and leave no extra reference. An error of the library arrives as an exception with its code, message and trace, an exception raised in a user callback of a tuner or tree space comes back to the caller as an error with its message, and the data, state and destroy callbacks given by the user are called with what was given.",
 ["programs", "inputs", "histories"], "every object the bindings can create, every history of calls and every callback outcome",
 "Tests create one or two objects per class and rarely raise in callbacks or hand over temporary lists.",
 ["bindings/python/cconfigspace/*.py"],
 [("ctypes prototypes and wrappers", "bindings/python/cconfigspace/*.py"), ("callback wrappers", "bindings/python/cconfigspace/tuner.py, features_tuner.py, tree_tuner.py, tree_space.py"), ("error to exception and back", "bindings/python/cconfigspace/base.py, error_stack.py")],
 PBT + ": generated objects and call histories, differential against the C library called through independent prototypes",
 "Generated-input search through the Python interpreter (hypothesis) on a library built with AddressSanitizer.")
prop("P33", "The Kokkos connector proposes candidates, then the best measured",
 "Whatever the order of declarations, nested tuning contexts and kernels, the connector gives every tuning variable one of its declared candidates (an element of the set, or a value of the range with its open and closed bounds and its step) and never changes context variables; while a region (the set of its context and tuning variables) has fewer than 500 measurements every candidate keeps being proposed, and from then on a request for context values that were measured gets a configuration with the least elapsed time measured for them, later times being ignored. Kernels are fenced before and after, on their own device, exactly when an enclosing context has not converged. Finalizing releases everything, and a later session starts afresh.",
 ["histories", "inputs"], "every set of variable declarations and every sequence of nested contexts, kernels and elapsed times",
 "No test drives the connector; it needs hundreds of measurements to converge and depends on the clock.",
 ["connectors/kokkos/ccs-kokkos-connector.cpp", "src/features_tuner_random.c"],
 [("variables to parameters", "connectors/kokkos/ccs-kokkos-connector.cpp:variable_info_to_parameter"), ("convergence stack and fences", "connectors/kokkos/ccs-kokkos-connector.cpp:invoke_fence, kokkosp_request_values"), ("measurements", "connectors/kokkos/ccs-kokkos-connector.cpp:kokkosp_end_context")],
 PBT + ": stateful generation of Kokkos sessions with a clock owned by the harness, against a model of candidates, measurements and convergence",
 "Generated histories through the entry points Kokkos calls; contexts properly nested, one request per context, ranges away from the ends of 64-bit integers.")
