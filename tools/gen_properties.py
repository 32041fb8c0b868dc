#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is edited here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

EX = "symbolic-math/src/expr.rs"
JIT = "symbolic-math/src/jit.rs"
OPT = "symbolic-math/src/optimization.rs"
FT = "symbolic-math/src/final_tagless.rs"
DEN = "measures-core/src/core/density.rs"
BAY = "measures-bayesian/src/bayesian/mod.rs"
AJ = "measures-exponential-family/src/exponential_family/auto_jit.rs"
SEAM = "cfg(verif_sim): the crate's `std` is replaced by a simulator-controlled one (locks, atomics, threads, clock)"
caches = [("evaluation cache", "process-wide map from (expression, environment) to value", EX),
          ("simplification cache", "process-wide map from expression to simplified expression", EX),
          ("cache counters", "process-wide hits and misses", EX)]

p("C01", "Cached evaluation always agrees with direct evaluation",
  "Evaluating an expression through the shared evaluation cache gives exactly the value, or exactly the error, that direct evaluation of that expression in that environment gives. This holds for every expression and environment, whatever other expressions were evaluated or caches cleared before, and however the calls of several threads interleave. An evaluation that fails never makes a later evaluation succeed, fail or change.",
  ["schedules", "histories", "inputs", "fault_sequences"], "every interleaving of cached evaluations, clears and counter reads by several threads, every history of earlier requests, every expression/environment pair (including odd names, signed zeros, NaN and infinities), and threads dying in the middle",
  "Tests call the cached path once or twice from one thread on x*x-like expressions; the process-wide cache makes every answer depend on all earlier requests and on who ran when.",
  [EX], [("string key of expression and environment", EX + " evaluate_cached"), ("one mutex around the map", EX + " EVALUATION_CACHE")], caches[:1],
  ["return value of the cached evaluation"], SEAM)
p("C02", "Cached simplification always agrees with direct simplification",
  "Simplifying an expression through the shared simplification cache gives the same expression that simplifying it directly gives. This holds for every expression, whatever was simplified or cleared before, and however the calls of several threads interleave.",
  ["schedules", "histories", "inputs", "fault_sequences"], "every interleaving and history of cached simplifications, evaluations, clears by several threads, every expression",
  "One test simplifies x+0 style expressions through the cache from one thread; collisions between different expressions need a particular earlier request.",
  [EX], [("string key of the expression", EX + " simplify_cached"), ("one mutex around the map", EX + " SIMPLIFICATION_CACHE")], caches[1:2],
  ["returned expression"], SEAM)
p("C03", "Cache counters account for every cached request exactly once",
  "Every cached evaluation or simplification request, successful or not, adds exactly one to either the hit or the miss counter of its own kind, and nothing else does. A request counts as a hit only if an equal request was made since the caches were last cleared, and clearing resets all four counters to zero. Whatever the interleaving, a reading of the counters always lies between the requests known to have completed and the requests started since the last clear, and the hit rates it reports are those of its own counts (0 before any request).",
  ["schedules", "histories", "fault_sequences"], "every interleaving of requests, clears and counter readings by several threads",
  "Tests read the counters in one thread, tolerate any totals (other tests share the statics), and cannot force two threads into the window between lookup and count.",
  [EX], [("counters updated under their own mutex", EX + " CACHE_STATS")], caches, ["counter snapshot"], SEAM)
p("C04", "A repeated cached request is answered from the cache",
  "Once a cached evaluation or simplification has succeeded, repeating the same request right away is a hit, not a recomputation. It does not matter how the equal environment was built: insertion order, removed entries, map capacity and the process's hash randomisation make no difference. Consequently, between two clears, a fixed set of distinct successful requests made one after another never causes more misses than its size, no matter how often it is repeated.",
  ["histories", "configurations", "schedules"], "every way of building an equal environment map, every hash seed, every history of repeats",
  "Tests repeat a request with the very same map object, whose iteration order cannot differ; randomised iteration order is a per-map accident that a test neither controls nor notices.",
  [EX], [("environment rendered into the key", EX + " evaluate_cached")], caches, ["miss counter"], SEAM)
p("C05", "The shared caches stay usable under any interleaving and a dying caller",
  "Every cached evaluation, cached simplification, counter reading and cache clear finishes within a bounded number of steps, however the threads are scheduled: no deadlock and no lost wake-up. If one caller's thread dies at any point inside such a call, all other callers keep getting correct answers, and reading the counters and clearing the caches keep working instead of failing. After such a death a clear makes caching effective again.",
  ["schedules", "crash_points", "fault_sequences"], "every interleaving of cache operations and every point at which a caller's thread can die inside one",
  "Tests never kill a thread inside a cache operation and never control scheduling; lock-order and poisoning defects only show at particular points.",
  [EX], [("`if let Ok(lock)` on the cached paths, single lock order", EX)], caches, ["completion of every call", "counter snapshot after the death"], SEAM)
p("C06", "Compilation under refused memory fails cleanly and can be retried",
  "If memory for generated machine code, or a change of its protection, is refused while an expression is being compiled, compilation reports an error: it never aborts or panics and never yields a function. Functions compiled earlier keep working, and the same compilation succeeds, with the same results, once memory is granted again.",
  ["fault_sequences", "histories", "crash_points"], "every request for code memory or its protection made during any compilation, refused once or for a while, in any history of compilations, calls and drops",
  "Tests never see a refusal: the allocator and the kernel always say yes.",
  [JIT, FT, BAY], [("errors of the code generator mapped to the crate's error type", JIT + " compile_expression/compile_custom_expression/compile_final_tagless")],
  [("code memory", "pages holding generated machine code", JIT)], ["Result of compile", "values of surviving functions"], "page-sized allocations and mprotect are interposed in the simulator binary (no /repo hook)")
p("C07", "Native code memory is returned when functions or compilers go away",
  "All memory obtained for generated machine code is given back once the compiled function owning it is dropped, and a compilation that fails, for whatever reason and at whatever point, gives back everything it had obtained. Compiling a part of a Bayesian model again gives back what the part had before. Dropping one function never takes away or alters the code of another. Compiling and dropping repeatedly therefore never accumulates code memory.",
  ["histories", "fault_sequences", "crash_points"], "every history of compile, call, drop, failed compile (bad expression, refused memory), and every refusal point",
  "The documentation promises automatic clean-up, but no test measures code memory; leaked pages are invisible to value assertions.",
  [JIT, FT, BAY], [("compiled function owns its module", JIT + " GeneralJITFunction")],
  [("code memory", "page-aligned allocations made by the code generator, and their protection", JIT)], ["outstanding code pages"], "page-sized allocations and mprotect are interposed in the simulator binary (no /repo hook)")
p("C08", "A compiled function's value depends only on its arguments",
  "Calling a compiled function with the same arguments always gives the same bits, namely those the function gives when it is compiled and called alone in a fresh process, and for expressions of + - * / sqrt those of direct evaluation. It does not matter what was compiled, called, dropped or failed before, which calling form carries the arguments (single, data plus parameters, batch), which thread calls, how calls interleave, or what happens to be left in registers or on the stack.",
  ["histories", "schedules", "configurations", "inputs"], "every history and interleaving of compilations, calls and drops over several threads, every calling form the compiler accepts",
  "Tests compile one function and call it immediately on one thread; batch calls are never checked against a value, and stale machine state only matters after other calls.",
  [JIT, FT, BAY], [("calling convention chosen from the signature", JIT + " call_*"), ("each compilation has its own module", JIT)],
  [("compiled function", "code pointer plus owning module", JIT)], ["returned f64 bits"], None)
p("C09", "Results do not change from one run of the program to the next",
  "The same program produces the same results in every process: compiled functions take their arguments in the same order, and evaluation, simplification, optimisation, substitution, rendering and compilation results are identical whatever the process's hash randomisation, memory layout, clock readings (stalls and jumps included) or thread placement. Only reported compilation times may differ.",
  ["configurations", "schedules", "inputs", "fault_sequences"], "every hash seed, address layout and clock behaviour, for every expression",
  "A test runs in one process with one random hash seed and a well-behaved clock; order dependence shows up only for some seeds and is written off as flakiness.",
  [FT, JIT, EX, OPT], [("variable lists derived from the expression", FT + " JITEval::compile"), ("compile-time measurement", JIT)],
  None, ["function results, rendered strings, variable lists compared across simulated processes"], SEAM + "; getrandom is interposed in the simulator binary")
p("C10", "A Bayesian model's compiled parts are replaced all at once or not at all",
  "Posterior, likelihood and prior of a model are compiled and evaluated independently: a successful compilation replaces exactly its own part, and a compilation that fails for any reason leaves all three parts evaluating exactly as before. Evaluating a part always gives the value of the expression most recently compiled into it at the supplied data and parameters, and reports absence exactly when nothing was ever compiled into it.",
  ["histories", "fault_sequences", "inputs"], "every history of compilations (valid, invalid, refused memory) and evaluations of the three parts, for every number of data and parameter variables the model uses",
  "The tests compile a part once and check only that a value is present; no test recompiles, fails a recompilation, or compares the value with the model.",
  [BAY, JIT], [("slot assigned only after a successful compile", BAY + " compile_*_jit")],
  [("posterior, likelihood, prior slots", "optional compiled functions", BAY)], ["Option<f64> from evaluation"], None)
p("C11", "An optimiser's answer does not depend on what it optimised before",
  "Optimising an expression with an optimiser that has already processed, or failed on, any other expressions gives an expression with the same value as optimising it with a brand-new optimiser. One expression whose simplification is degenerate (such as a zero divided by a zero) never changes the meaning of later results, and an error for one expression does not prevent the next from being optimised.",
  ["histories", "inputs"], "every sequence of expressions given to one optimiser, including degenerate and rejected ones",
  "Tests create a new optimiser for each expression or feed one a single expression; contamination needs a particular earlier expression.",
  [OPT], [("one long-lived e-graph per optimiser", OPT + " EgglogOptimizer")],
  [("e-graph", "equalities learned so far", OPT), ("expression counter", "unique names", OPT)], ["returned expression, evaluated"], None)
p("C12", "Library calls neither use nor depend on the process's standard streams",
  "No library operation writes to standard output or standard error, and every operation gives the same result when those streams are closed, full, interrupted, slow or broken as when they work. In particular a closed output pipe never turns a computation into a panic.",
  ["fault_sequences", "inputs"], "every write error, short write or closed stream during any library operation",
  "Test harnesses capture output and always accept it.",
  [OPT, EX, JIT, FT, AJ, DEN, BAY], [("pure computation without I/O", "all crates")], None, ["writes to descriptors 1 and 2", "results"], "write/writev are interposed in the simulator binary (no /repo hook)")
p("C13", "A cached log-density equals the uncached one and evaluates each point once",
  "A log-density wrapped in a cache returns, for every sequence of queries, exactly what the wrapped log-density returns for each queried point, NaN and infinities included. The wrapped log-density is evaluated exactly once for each distinct point that is queried successfully, no matter how points collide in the hash table, how they interleave or how many there are.",
  ["histories", "configurations", "inputs"], "every query sequence, every number of distinct points, every hash behaviour of the point type and hash seed",
  "Tests query a couple of integer-like points and compare two values; they do not count evaluations, collide keys or run long histories.",
  [DEN], [("map from point to value behind interior mutability", DEN + " CachedLogDensity")],
  [("cache", "points already evaluated", DEN)], ["returned value, count of inner evaluations"], None)
p("C14", "A failing or re-entrant log-density never damages its cache",
  "If the wrapped log-density fails (panics) while evaluating a point, the failure reaches the caller, nothing is remembered for that point, all points remembered before keep their values, and the cache can be used on, including for the failed point. A log-density whose evaluation itself queries the same cache at other points works and gives the same values as without a cache.",
  ["crash_points", "histories", "fault_sequences"], "every point at which user code called by the cache can fail, every nesting of queries, any history before and after",
  "No test lets the wrapped density fail or call back into the cache.",
  [DEN], [("scope of the interior borrow around the inner evaluation", DEN + " CachedLogDensity::at")],
  [("cache", "points already evaluated", DEN)], ["panic or value of each query, later queries"], None)
p("C15", "Density evaluation keeps no hidden state",
  "Evaluating a measure's log-density (distributions, exponential families, i.i.d. batches, products, mixtures, pushforwards, precompiled closures, relative densities) at a point gives the same bits as evaluating it first thing in a fresh process. It does not matter which other evaluations ran before or concurrently on the same or other objects, in which thread, or whether a user-supplied transformation or measure panicked in the middle of an earlier evaluation.",
  ["schedules", "histories", "crash_points"], "every interleaving of evaluations on shared objects by several threads, every history, every point at which user-supplied code panics",
  "Tests evaluate each object a few times from one thread; hidden state introduced anywhere would only show for particular earlier calls or interleavings.",
  ["measures-distributions/src/distributions", "measures-combinators/src/measures", "measures-exponential-family/src/exponential_family", "measures-core/src/core"],
  [("no shared mutable state by design (docs/performance.md)", "all measure crates")], None, ["returned f64 bits"], SEAM)
p("C16", "The automatic-compilation registry returns exactly what was last registered",
  "After any history of registrations, looking up a distribution type yields exactly the pattern most recently registered for that type, and nothing for types never registered; registering one type never affects another. A pattern that fails or panics while it is used leaves the registry unchanged, for every thread sharing it.",
  ["histories", "schedules", "crash_points"], "every history of registrations, replacements, look-ups and uses, concurrent use by several threads, patterns failing at any point",
  "The tests only check that a new registry is empty.",
  [AJ], [("map keyed by type identity", AJ + " AutoJITRegistry")], [("patterns", "registered generators", AJ)], ["result of look-up and of the looked-up pattern"], None)

p("C17", "Repeating any work leaves no memory behind",
  "After everything a piece of work built has been dropped and the expression caches have been cleared, the heap in use does not depend on how often that work was done before: repeating it any number of times does not accumulate memory. Repeating the same cached requests without clearing, or using the same long-lived object again in the same way (a compiled function, a Bayesian model whose parts are compiled again, a registry whose patterns are registered again, a cached log-density asked for the same points), does not accumulate memory either. This holds when calls fail, panic in user code or are refused code memory, and when the threads doing the work come and go or die in the middle of it. (The e-graph optimiser is excepted: its third-party engine keeps a table of all symbols it has seen.)",
  ["histories", "fault_sequences", "crash_points", "schedules"], "every sequence of operations, repeated any number of times, with failures, panics, refused memory and dying threads in it",
  "Tests do each thing once or twice and never measure what remains; a leak of a few bytes per call, or only on an error path, needs a counted heap and many repetitions.",
  [EX, JIT, BAY, DEN, AJ], [("ownership of cached entries, compiled modules, model parts and patterns", "all crates")],
  caches, ["bytes handed out by the global allocator and not returned, after each repetition"], "the global allocator of the simulator binary counts (no /repo hook); " + SEAM)
p("C18", "The library touches nothing outside its own process memory",
  "No library operation opens, creates, removes or looks for files, uses the network, starts processes, or leaves the environment variables, working directory, signal handling, open descriptors, limits, timers, processors or floating-point mode of the process other than it found them. Every operation gives the same result whatever the environment variables, the working directory, the permissions and the limits on files and descriptors are, and when every access to files and network is refused. (What the runtime reads about the kernel under /proc and /sys, and the perf map that the code generator writes when PERF_BUILDID_DIR asks for it, are excepted.)",
  ["fault_sequences", "configurations", "histories"], "every operation, in every environment, with every outward system call refused in every way",
  "Tests run in a working environment in which a stray file, a variable read or a descriptor left open goes unnoticed.",
  [EX, JIT, OPT, FT, BAY, AJ, DEN], [("pure computation in memory", "all crates")], None,
  ["system calls reaching outside the process, descriptors, environment, signal handlers, limits, timers, processors, children and floating-point control before and after, results compared across processes"], "system calls are filtered and getenv interposed in the simulator binary (no /repo hook)")

p("C19", "A compiled function's report describes its own compilation",
  "What a natively compiled function reports about its own making (signature, source text, figures) is what the same compilation done alone reports, whatever was compiled or failed before, meanwhile or since, and it does not change while the function lives. The compile time it reports is, in whole microseconds, at least the time its compile call waited for code memory and at most the duration of that call. This holds whatever the clocks do (stalls, leaps, a wall clock running backwards) and however slow memory is.",
  ["fault_sequences", "histories", "schedules"], "every history of compilations, every behaviour of the clocks, and every delay of code memory",
  "Tests look at one function on an undisturbed clock and accept any time.",
  [JIT, FT], [("statistics taken in each compile function", JIT + " compile_expression, compile_custom_expression, compile_final_tagless")],
  [("CompilationStats", "size, instruction count, time, constants, estimated speed-up", JIT + " GeneralJITFunction")],
  ["compilation_stats, signature and source_expression after each compilation and later"], "std's clock is the simulated one under cfg verif_sim; code memory is delayed at the allocator and mprotect seams")
p("C35", "No memory is ever writable and executable at once",
  "At no moment is any memory of the process both writable and executable: not while an expression or a part of a model is compiled, not while compiled functions are called, not after a compilation that failed or was refused memory or a change of its protection, and not while or after functions and compilers are dropped, in any order and on any thread.",
  ["fault_sequences", "histories", "schedules"], "every history of compilations, failures, calls and drops, every refusal of memory and every schedule",
  "No test looks at memory protection, least of all after a refusal.",
  [JIT, BAY], [("code is written, then made executable, and freed with its module", JIT + " OwnedModule, finalize_definitions")], None,
  ["requests at the mprotect and mmap seams, and the process's memory map after every operation"], "mprotect and mmap are interposed in the simulator binary (no /repo hook)")

# ---- pure-input properties: not decided by this technique ----
p("C20", "Distribution log-densities equal their mathematical definitions",
  "For every valid parameter and point of the support, each distribution's log-density equals the textbook log-density or log-mass within floating-point accuracy, and is negative infinity outside the support.",
  ["inputs"], "every distribution, parameter and point", "Tests compare a handful of points.",
  ["measures-distributions/src/distributions", "measures-combinators/src/measures/derived"], [("per-distribution formulas", "measures-distributions/src/distributions")])
p("C21", "The exponential-family form reproduces the log-density",
  "For every exponential family, natural parameter times sufficient statistic minus log-partition plus base-measure term equals the directly defined log-density, and converting to natural parameters and back is the identity.",
  ["inputs"], "every family, parameter and point", "Tests sample a few parameters.",
  ["measures-exponential-family/src/exponential_family", "measures-distributions/src/distributions"], [("natural parameters, sufficient statistics", "measures-exponential-family/src/exponential_family/traits.rs")])
p("C22", "Relative log-densities obey the chain rule and antisymmetry",
  "For measures sharing a root, the log-density of m1 with respect to m2 is the negative of that of m2 with respect to m1, chains add up, and the log-density of a measure with respect to itself is zero.",
  ["inputs"], "every pair or triple of measures and every point", "Tests sample a few normals.",
  [DEN], [("difference of root log-densities", DEN + " ExpFamDispatch")])
p("C23", "An i.i.d. batch's log-density is the sum of its points' log-densities",
  "The log-density of an i.i.d. collection at any sample equals the sum of the individual log-densities, independent of the order of the sample.",
  ["inputs"], "every distribution and sample, empty and long samples included", "Tests use short samples.",
  ["measures-exponential-family/src/exponential_family/iid.rs", "measures-exponential-family/src/exponential_family/traits.rs"], [("summed sufficient statistics", "measures-exponential-family/src/exponential_family/traits.rs")])
p("C24", "Products, mixtures, pushforwards and weights obey their defining identities",
  "Product log-densities add, mixture densities are the weighted sums of component densities, pushforward densities follow the change-of-variables formula, and weighting adds the log-weight.",
  ["inputs"], "every composition of measures and every point", "Tests sample a few compositions.",
  ["measures-combinators/src/measures"], [("combinator formulas", "measures-combinators/src/measures/combinators")])
p("C25", "Simplification preserves value and is idempotent",
  "For every expression and environment where the original is defined, the simplified expression evaluates to the same value within rounding; simplifying never makes an expression more complex.",
  ["inputs", "programs"], "every expression and environment", "Tests cover single rewrite rules.",
  [EX], [("rewrite rules", EX + " simplify")])
p("C26", "Compiled transcendental functions approximate evaluation within tolerance",
  "For every expression and argument in the documented domain, the compiled function approximates direct evaluation within the documented accuracy, and never traps for any argument.",
  ["inputs", "programs"], "every expression and argument", "Tests compare a few arguments.",
  [JIT], [("range reduction and rational approximations", JIT + " generate_*_call")])
p("C27", "Equality-saturation rewriting preserves value",
  "The expression returned by the optimiser evaluates to the same value as the given expression wherever both are defined, with constants kept to full precision.",
  ["inputs", "programs"], "every expression", "Tests cover x+0-like cases.",
  [OPT], [("rewrite rules, printing and parsing of terms", OPT)])
p("C28", "All interpreters of a tagless expression agree",
  "Direct evaluation, conversion to an expression tree, compilation and printing of one tagless program denote the same function.",
  ["programs", "inputs"], "every tagless program and argument", "Tests cover linear and quadratic programs.",
  [FT, "mathjit/src/final_tagless.rs", "measures-exponential-family/src/exponential_family/final_tagless.rs", "measures-distributions/src/distributions/final_tagless.rs"], [("one trait, several interpreters", FT)])
p("C29", "The specialised evaluators agree with general evaluation",
  "Single-variable, polynomial, linear, batch, grid and automatically chosen evaluation of an expression give the same value or the same error as general evaluation in the corresponding environment.",
  ["inputs", "programs"], "every expression and argument", "Tests cover small polynomials.",
  [EX], [("fast paths", EX + " evaluate_single_var, evaluate_smart, evaluate_batch_optimized")])
p("C30", "A log-density decomposition sums to the log-density it decomposes",
  "For every decomposable distribution the data, parameter, joint and constant terms add up to the log-density, and the i.i.d. decomposition multiplies the parameter and constant parts by the sample size.",
  ["inputs"], "every decomposition, parameter and sample", "Tests sample a few normals.",
  ["measures-core/src/core/log_density_decomposition.rs"], [("terms as functions", "measures-core/src/core/log_density_decomposition.rs")])
p("C31", "Bayesian model builders produce the stated formulas",
  "Likelihood, prior, posterior, hierarchical and mixture expressions evaluate to the log-densities of the models they are named after.",
  ["inputs"], "every parameterisation", "Tests check the shape of a few expressions.",
  [BAY], [("expression builders", BAY + " expressions")])
p("C32", "Rendered expressions mean what the expression means",
  "The textual, LaTeX and Python renderings of an expression, read with the usual precedence, denote the same function as the expression.",
  ["programs"], "every expression", "Tests compare a few strings.",
  [EX, "symbolic-math/src/display.rs"], [("printing with parentheses", EX)])
p("C33", "Numeric helper conversions are exact or rejected",
  "Log-factorials, log-gamma, binomial coefficients and numeric conversions are accurate over the documented range and conversions never silently lose values.",
  ["inputs"], "every argument", "Tests sample small arguments.",
  ["measures-core/src/core/utils.rs", "measures-combinators/src/measures/derived"], [("helper functions", "measures-core/src/core/utils.rs")])
p("C34", "Automatic differentiation of log-densities gives their gradients",
  "Evaluating a log-density with dual or adjoint numbers yields the derivative of its value with respect to the point.",
  ["inputs"], "every distribution and point", "The autodiff feature has no compiled tests here.",
  ["measures-core/src/core/autodiff.rs", "measures-distributions/src/distributions"], [("generic numeric type", "measures-core/src/core/autodiff.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
