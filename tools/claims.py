M["C01"] = dict(technique="runtime monitoring: value oracle (independent reference evaluator) over generated programs",
    note="Every observed evaluation of generated expressions is compared with an independent reference evaluator within a conditioning-based tolerance; exploration of random trees, all operators on all sorts, and wide-range scalar inputs. Trusts the C math library.")
M["C02"] = dict(technique="runtime monitoring: differential oracle (lifted against dense evaluation) over generated programs in every representation",
    note="The same random expressions are evaluated with inputs supplied raw, homogeneous and diagonal, and with every input materialised; the materialised results must agree, and the library's own materialisation must agree with one written without it.")
M["C03"] = dict(technique="runtime monitoring: oracle comparing predicted and observed shapes over generated programs and derivative expressions",
    note="Shape evaluation of every generated expression, and of its derivatives, is compared with the shape of the value it evaluates to, including run-time sized buffers that disagree.")
M["C04"] = dict(technique="runtime monitoring: derivative oracle (forward-mode reference differentiation) over generated programs",
    note="Derivative expressions of random trees are evaluated at interior points and compared with reference dual-number derivatives; three gradient defects are listed findings, recognised only by their exact wrong result.")
M["C05"] = dict(technique="runtime monitoring: derivative oracle (third-order hyper-dual reference) over generated programs and target sequences",
    note="Second and third derivatives, mixed, in every order of the targets, against hyper-dual numbers; functions differentiable only once or twice in the library are explored only to that order.")
M["C06"] = dict(technique="runtime monitoring: differential oracle (one-call helpers against separate evaluation) over generated programs",
    note="Values, and failures of either part, of both helpers against building and evaluating the derivative expression; includes undefined variables, filled caches, points outside the domain, and operators defined by the user that fail in every combination.")
M["C07"] = dict(technique="runtime monitoring: access tracing (recorded reads against reported identifiers) and perturbation of unreported variables",
    note="Every read of a recording context is compared with what the expression reports; everything unreported is then changed and removed. Absent targets must give exact zeros at interior points.")
M["C08"] = dict(technique="runtime monitoring: failure oracle over generated programs with fault injection (removed variables, changed lengths) and read traces",
    note="The exact error of evaluation is predicted from the tree; derivative errors are tied to the first undefined variable the trace shows was read. Shape evaluation of nodes with a constant shape may ignore or report a failing operand.")
M["C09"] = dict(technique="runtime monitoring: trace checking of cache histories (evaluations, reads, writes) against a sequential model",
    note="Random histories of evaluation, clearing, overwriting and variable changes, with each inner evaluation counted; circular caches (a cache inside itself) are excluded.")
M["C11"] = dict(technique="runtime monitoring: bit-exact repetition oracle over interleaved sessions, with context fingerprints",
    note="Answers of originals, clones and rebuilt copies in random interleavings over one context, and after update histories, are compared bit for bit; contexts are fingerprinted.")
M["C12"] = dict(technique="runtime monitoring: element-wise oracle over generated constructions of every buffer class and rank",
    note="Every constructor of every class (and of two classes defined by the check with only the required methods) is read back at every index and just outside; subsets are empty, full, shuffled, repeated; the requested indices are recorded.")
M["C13"] = dict(technique="runtime monitoring: call logs of recorded closures checked for exactly-once and order, with an element oracle",
    note="Closures passed to map, map_ref, mutate and fold record their arguments; logs and results are compared with the elements. Floating sums are compared within rounding.")
M["C14"] = dict(technique="runtime monitoring: pair logs of recorded closures checked for pairing and order, with an element oracle and mismatching lengths",
    note="All zip operations on all ranks, fields, scalar sides and mismatching run-time lengths; argument logs are compared with the pairs of equal index.")
M["C15"] = dict(technique="runtime monitoring: Einstein-sum oracle over generated operands in every pair of representations",
    note="Every supported pair of ranks, square and rectangular, empty and unit, exact on integers and within rounding on reals, plus magnitudes and lengths where a shortcut could overflow.")
M["C16"] = dict(technique="runtime monitoring: differential oracle (lifted against dense) over generated lifted buffers",
    note="Maps, zips, constructors and conversions in all representations and pairs of representations, all classes and ranks, compared with an interpretation written without the library.")
M["C17"] = dict(technique="runtime monitoring: trace checking of index enumerations (order, exactly-once, hints and counts at every point)",
    note="Exhaustive over small run-time shapes, all fixed ranks, random larger shapes; all concatenations, splits and broadcasts that exist.")
M["C18"] = dict(technique="runtime monitoring: derivative-rule oracle over generated duals, and exact perturbation oracle over random dual programs",
    note="All operators in all ownership forms on all fields, on vector duals and scalar-value vector-adjoint duals; programs are compared with plain integer arithmetic on perturbed inputs.")
M["C19"] = dict(technique="runtime monitoring: read-back oracle (independent parser and evaluator of the rendered text) over generated programs",
    note="Texts of every operator inside every operator, random trees of all sorts and scalar derivatives are parsed by the usual conventions and evaluated; the value must be that of the expression. Gradients (targets that are buffers) have no notation for their shape and are not read back. One finding is listed.")
M["C23"] = dict(technique="runtime monitoring: identity oracles over float inputs of every class and every threshold neighbourhood",
    note="Bounds, symmetry, monotonicity, values at zeros of both signs, recurrences and complements of the scalar operators, both float types, by every route to the operator (bit-equal). Accuracy is also compared with the C math library.")
M["C10"] = dict(technique="runtime monitoring: model-based trace checking of write and read histories over generated context types",
    note="Context types of all three macros with generated numbers, names, orders, kinds and types of fields; after every write or clear, every identifier is read by seven routes and compared with a table of what was last written, bit for bit. A valid context type that no longer compiles is reported.")
M["C20"] = dict(technique="runtime monitoring: value and derivative oracle over generated formulas written with the macro",
    note="Formulas generated with their syntax tree by Rust's precedence, including all triples of operators, spellings of literals, embedded Rust and nested macros; values and three derivatives at random points against an independent evaluator. A valid formula that no longer compiles is reported. Arguments of other macros that begin with a path or a macro call are bracketed, as the parser the macro is built on (a dependency) loses their grouping.")
M["C21"] = dict(technique="runtime monitoring: identity oracle over generated identifier declarations",
    note="All pairs of every generated declaration and of the predefined identifiers, in both directions, directly and through contents, derivatives, Jacobians and shapes of variables; symbols as displayed by every route.")
M["C22"] = dict(technique="sanitizers and undefined-behaviour interpreter (Miri, AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer, Memcheck) over a hostile workload, and a counting allocator",
    note="Every buffer operation, contraction, zip, shape, dual, context and expression operator, with closures that panic, indices far out of range and extreme values, runs under each instrument that can run it; Miri cannot run the C code of the special functions, the others do. Memory of an operation repeated identically must be given back. Three out-of-range conversions in the C code are listed findings.")
M["C24"] = dict(technique="data-race detection (ThreadSanitizer, Miri with seeded schedules) and a bit-exact single-thread oracle over concurrent workloads with injected delays",
    note="Shared expressions, every operator in both precisions alone and mixed, and random trees with caches, in 8 threads with own contexts; every answer is compared with that of a process with one thread. Every node type is probed for Send and Sync. Schedules are sampled, not enumerated. One benign race in the C library is a listed finding.")
