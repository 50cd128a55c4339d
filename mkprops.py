#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
CG = "include/cppad/cg/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": [CG + f for f in files],
         "mechanism": [{"name": n, "where": CG + w} for n, w in mech]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Thread pool runs every submitted job exactly once before wait returns",
  "Every job handed to the generated thread pool is executed exactly once, with its own argument, and a wait returns only after all jobs submitted before it have finished. "
  "This holds for the static, dynamic and guided strategies, with any timing information, any job order and any number of threads, and also when the pool is disabled. "
  "After timings are updated, the job order is still a permutation of the jobs and each reference time is the minimum or the average of the measurements.",
  ["schedules", "configurations", "histories"],
  "every interleaving of the client and the workers, every strategy/timing/ordering/thread-count configuration and every sequence of pool calls",
  "The tests run a handful of models under whatever schedule the OS happens to produce; lost, repeated or late jobs need a specific interleaving or specific timings.",
  ["model/threadpool/pthread_pool.c"],
  [("job queue and work groups", "model/threadpool/pthread_pool.c"), ("wait for idle", "model/threadpool/pthread_pool.c")])
p("C02", "Thread pool calls always finish; shutdown is clean and the pool is reusable",
  "No call on the generated thread pool (submit, wait, change of strategy, shutdown) blocks forever, whatever the interleaving, and idle workers always get woken for queued work. "
  "Shutting down ends every worker thread before it releases memory, releases all of it, never touches released memory, and leaves the pool ready to be used again, possibly with another number of threads.",
  ["schedules", "configurations", "histories"],
  "every fair interleaving of client and workers over every sequence of submit/wait/configure/shutdown calls",
  "A lost wake-up or a use-after-free at shutdown shows up only under particular interleavings, which tests neither control nor enumerate.",
  ["model/threadpool/pthread_pool.c"],
  [("binary semaphore", "model/threadpool/pthread_pool.c"), ("destroy and worker exit", "model/threadpool/pthread_pool.c")])
p("C03", "Multi-threaded Jacobian and Hessian evaluation equals the sequential one",
  "The sparse Jacobian and sparse Hessian of a model compiled for thread-pool or OpenMP evaluation have exactly the values, elements and element order of the sequential evaluation. "
  "This holds for every number of threads and jobs, every scheduling strategy, in verbose or disabled mode, and over any sequence of repeated evaluations and configuration changes.",
  ["schedules", "configurations", "inputs", "histories"],
  "all models, thread counts, strategies, enabling/disabling and sequences of evaluations",
  "The tests evaluate a few models a few times under one configuration each.",
  ["model/model_c_source_gen_impl.hpp", "model/model_c_source_gen_jac.hpp", "model/model_c_source_gen_hes.hpp", "model/threadpool/pthread_pool.c", "model/threadpool/openmp.c"],
  [("parallel function generation", "model/model_c_source_gen_impl.hpp"), ("multi-threaded sparse Jacobian", "model/model_c_source_gen_jac.hpp"), ("multi-threaded sparse Hessian", "model/model_c_source_gen_hes.hpp")])
p("C04", "Recording arithmetic on the code-generation scalar preserves values and meaning",
  "Arithmetic, compound assignment, mathematical functions and comparisons on the code-generation scalar give, for every mix of constants, variables with values and variables without values, a result whose recorded expression and whose propagated value both equal what plain arithmetic gives. "
  "Comparisons of constants give what plain arithmetic gives, order comparisons of variables are refused and (in)equality of variables is that of their expressions. "
  "Constant folding never changes a result for finite operands, a copy is independent of later changes to its source, and combining variables of different recordings is refused.",
  ["programs", "inputs"],
  "all sequences of scalar operations over constants (including 0, 1 and -1), valued and unvalued variables",
  "The tests evaluate each operator at a few points with generic operands; the special cases (identities, aliasing such as a -= a, missing values) are a product space they do not cover.",
  ["arithmetic.hpp", "arithmetic_assign.hpp", "variable.hpp", "compare.hpp", "math.hpp", "math_other.hpp", "unary.hpp", "cond_exp_op.hpp", "identical.hpp", "ordered.hpp"],
  [("binary operators", "arithmetic.hpp"), ("compound assignment", "arithmetic_assign.hpp"), ("value propagation", "variable.hpp")])
p("C05", "Generated C code computes the recorded function under every option",
  "For every recorded function, the generated C source compiles and computes the same dependent values as the recording. "
  "This holds whatever the limits on operations per assignment and assignments per function (which split the code into several functions and files), variable naming, temporary reuse, zeroing of dependents and handling of zero assignments, and whether dependents are constants, independents or repeated.",
  ["programs", "configurations", "inputs"],
  "all operation graphs and all combinations of code generation options",
  "The tests use fixed example models with default options; sharing structure, temporary-variable reuse and function splitting interact in ways that depend on the graph.",
  ["code_handler.hpp", "code_handler_impl.hpp", "lang/c/language_c.hpp", "lang/c/lang_c_default_var_name_gen.hpp"],
  [("evaluation order and temporary variable ids", "code_handler_impl.hpp"), ("expression and assignment printing", "lang/c/language_c.hpp"), ("local function splitting", "lang/c/language_c.hpp")])
p("C06", "Generating code repeatedly or after a reset always gives a correct result",
  "A recording can be generated any number of times, for different dependents, options and languages, interleaved with further recording, and every generated source computes the function it was asked for, as if it had been generated first. "
  "After a reset the recorder accepts a new recording whose generated code is correct and does not depend on what was recorded before.",
  ["histories", "programs"],
  "all sequences of record, generate, generate with other dependents/language/options and reset on one recorder",
  "The tests generate once per recorder; stale ids, use counts or scopes appear only from the second generation on.",
  ["code_handler.hpp", "code_handler_impl.hpp", "code_handler_vector.hpp"],
  [("reset of per-generation state", "code_handler_impl.hpp"), ("per-node vectors", "code_handler_vector.hpp")])
p("C07", "Conditional expressions select the right branch in generated code",
  "For every nesting of conditional expressions, in which branches share sub-expressions with each other, with the condition or with other dependents, the generated code gives the value of the branch selected by the comparison at the evaluated point. "
  "Every value is computed before it is used on every path, for all six comparisons, also at equality of the operands.",
  ["programs", "inputs"],
  "all graphs with nested and sharing conditional expressions and all inputs (including ties)",
  "Whether a sub-expression is placed inside or outside a branch depends on the global sharing structure; the tests hold a few fixed shapes.",
  ["cond_exp_op.hpp", "code_handler_impl.hpp", "lang/c/language_c.hpp"],
  [("scope determination of operations", "code_handler_impl.hpp"), ("conditional assignment printing", "lang/c/language_c.hpp")])
p("C08", "Calls to user-supplied functions in generated code get the right arguments",
  "When a recorded function calls user-supplied (atomic) functions, the generated model calls them with the argument values, orders and directions that the recording demands and uses the values they return, so that its values and derivatives equal those of the inlined computation. "
  "This holds for any number and nesting of calls, for shared, constant or repeated arguments, for reused temporary arrays and for code split into several functions.",
  ["programs", "configurations", "inputs"],
  "all graphs with several user-function calls, all argument patterns and all derivative orders supported",
  "Reuse of temporary arrays and the suppression of repeated array assignments depends on the order and overlap of calls, which tests sample with a few fixed models.",
  ["abstract_atomic_fun.hpp", "base_abstract_atomic_fun.hpp", "atomic_fun.hpp", "atomic_fun_bridge.hpp", "array_id_compresser.hpp", "lang/c/language_c_arrays.hpp", "model/atomic_generic_model.hpp", "model/functor_generic_model.hpp"],
  [("array space allocation", "array_id_compresser.hpp"), ("array assignment and atomic call printing", "lang/c/language_c_arrays.hpp"), ("atomic call dispatch", "model/functor_generic_model.hpp")])
p("C09", "Model library values and derivatives equal those of the recorded function",
  "For every recorded function, every evaluation routine of the compiled model (values, dense and sparse Jacobian, dense and sparse weighted Hessian, first-order forward, first- and second-order reverse, in dense and sparse form) returns the mathematically correct result at every point where the function is differentiable. "
  "It does so for every mix of enabled routines and every Jacobian computation mode.",
  ["programs", "configurations", "inputs"],
  "all functions built from the supported operations, all subsets of enabled routines and all evaluation points and directions",
  "The tests compare a few fixed functions at one point each.",
  ["model/model_c_source_gen.hpp", "model/model_c_source_gen_impl.hpp", "model/model_c_source_gen_for0.hpp", "model/model_c_source_gen_for1.hpp", "model/model_c_source_gen_rev1.hpp", "model/model_c_source_gen_rev2.hpp", "model/model_c_source_gen_jac.hpp", "model/model_c_source_gen_hes.hpp", "model/functor_generic_model.hpp", "model/generic_model.hpp"],
  [("derivative source generation", "model/model_c_source_gen_jac.hpp"), ("derivative evaluation", "model/functor_generic_model.hpp")])
p("C10", "Sparsity patterns are sound and custom element requests are honoured exactly",
  "The sparsity patterns reported by a compiled model contain every element that is not identically zero, and row, column, boolean, set and per-equation forms agree. "
  "When particular Jacobian or Hessian elements are requested, the sparse routines return exactly those elements, in the requested order, with correct values.",
  ["programs", "configurations"],
  "all functions and all requested element lists in any order",
  "The tests request a few fixed element lists on one model.",
  ["model/model_c_source_gen_impl.hpp", "model/model_c_source_gen_jac.hpp", "model/model_c_source_gen_hes.hpp", "custom_position.hpp", "extra/sparsity.hpp", "extra/sparse_forjac_hessian.hpp", "model/functor_generic_model.hpp"],
  [("sparsity determination", "model/model_c_source_gen_jac.hpp"), ("custom positions", "custom_position.hpp"), ("sparsity propagation utilities", "extra/sparsity.hpp")])
p("C11", "Models generated with loop detection equal the model without loops",
  "Declaring groups of equations that follow the same pattern only changes how the model is coded: every value, Jacobian and Hessian element of the model generated with loops equals that of the model generated without loops. "
  "This holds for any number of iterations, any indexing of independents, shared temporaries, constants that vary per iteration, equations missing in some iterations, and candidate groups that turn out not to match.",
  ["programs", "configurations", "inputs"],
  "all families of repeated equations, index maps, shared and non-indexed terms and candidate groupings",
  "The tests use a few fixed pattern models; correctness depends on index arithmetic of each family.",
  ["patterns/dependent_pattern_matcher.hpp", "patterns/equation_pattern.hpp", "patterns/loop.hpp", "patterns/loop_model.hpp", "patterns/loop_free_model.hpp", "model/patterns/model_c_source_gen_loops.hpp", "model/patterns/model_c_source_gen_loops_for0.hpp", "model/patterns/model_c_source_gen_loops_jac.hpp", "model/patterns/model_c_source_gen_loops_hess.hpp"],
  [("pattern matching", "patterns/dependent_pattern_matcher.hpp"), ("loop code generation", "model/patterns/model_c_source_gen_loops.hpp")])
p("C12", "Detected index patterns reproduce every index they were built from",
  "The index pattern detected for any finite map from one or two loop indexes to an index reproduces that map exactly at every point of its domain. "
  "The C expression and tables generated for the pattern evaluate to the same indexes.",
  ["inputs"],
  "all finite integer maps of one or two arguments",
  "The tests try a few hand-written maps; the section and offset arithmetic has many boundary cases.",
  ["patterns/index/linear_index_pattern.hpp", "patterns/index/sectioned_index_pattern.hpp", "patterns/index/plane_2d_index_pattern.hpp", "patterns/index/index_pattern_impl.hpp", "patterns/index/random_1d_index_pattern.hpp", "patterns/index/random_2d_index_pattern.hpp", "lang/c/language_c_index_patterns.hpp"],
  [("linear section detection", "patterns/index/sectioned_index_pattern.hpp"), ("plane detection", "patterns/index/plane_2d_index_pattern.hpp"), ("index expressions", "lang/c/language_c_index_patterns.hpp")])
p("C13", "Libraries and models refuse misuse and survive any order of use",
  "A compiled library offers exactly the models and routines that were requested, and a model answers correctly as long as its library is open, whatever the order in which libraries, models and user functions are created, used, moved, closed and deleted. "
  "Use after the library is closed, wrong array sizes, unavailable routines, unknown models and missing user functions are refused with an exception and leave the objects usable.",
  ["histories", "fault_sequences", "configurations"],
  "all sequences of open, model creation, evaluation, misuse, close and deletion over several libraries and models",
  "The tests open one library and use it correctly.",
  ["model/functor_generic_model.hpp", "model/functor_model_library.hpp", "model/dynamic_lib/dynamiclib.hpp", "model/system/linux_system.hpp", "model/model_library_c_source_gen_impl.hpp", "model/dynamic_lib/dynamic_library_processor.hpp"],
  [("library readiness tracking", "model/functor_generic_model.hpp"), ("model registration", "model/functor_model_library.hpp")])
p("C14", "Re-evaluating a recording with other scalars reproduces the function",
  "Evaluating a recorded function again with other scalar types (numeric, differentiable, code-generation, or both combined) gives the recorded function at the new independents, for any graph, any subset of dependents and any number of repeated evaluations, also after a failed one. "
  "Evaluation does not modify the recording.",
  ["programs", "histories", "inputs"],
  "all operation graphs, target scalars and sequences of evaluations",
  "The tests re-evaluate each single operation and a few arrays once.",
  ["evaluator/evaluator.hpp", "evaluator/evaluator_cg.hpp", "evaluator/evaluator_ad.hpp", "evaluator/evaluator_adcg.hpp"],
  [("node evaluation with memoisation", "evaluator/evaluator.hpp"), ("re-recording", "evaluator/evaluator_cg.hpp")])
p("C15", "Solving for a variable and substituting it preserve the equations",
  "Solving a recorded equation for a variable returns an expression at which the residual is zero, and is refused exactly when the variable does not appear or cannot be isolated. "
  "Substituting an independent variable gives dependents equal to the original ones on the solution set, and undoing the substitution restores the original function.",
  ["programs", "histories"],
  "all invertible equation shapes, occurrences of the variable and substitution sequences",
  "The tests solve one equation per operator.",
  ["solver.hpp", "graph_mod.hpp", "code_handler.hpp", "evaluator/evaluator_solve.hpp"],
  [("solving along a path", "solver.hpp"), ("independent substitution", "graph_mod.hpp")])
p("C16", "Path searches report exactly the paths of the recorded graph",
  "Searching a recorded expression for a sub-expression reports every path from the root to it exactly once up to the requested limit, and the path graph between two expressions contains exactly the operations that lie on some path between them. "
  "Each reported path is a chain of real argument positions of the recording.",
  ["programs"],
  "all shared operation graphs, targets and limits",
  "The tests have one or two small graphs.",
  ["operation_path.hpp", "bidir_graph.hpp", "operation_path_node.hpp", "code_handler.hpp"],
  [("path search", "operation_path.hpp"), ("path graph", "bidir_graph.hpp")])
p("C17", "DAE index reduction yields a correct, structurally solvable system",
  "For every structurally non-singular system of differential-algebraic equations, index reduction differentiates exactly the equations required by the structural algorithm, reports the matching structural index, variable and equation relations, and the added equations are the time derivatives of the originals. "
  "The system reduced by Pantelides has a full matching of equations to highest-order unknowns, one more differentiation of the system reduced by Soares-Secchi gives an ODE, and structurally singular systems are refused.",
  ["inputs", "configurations"],
  "all incidence structures and equation contents",
  "The tests reduce a few textbook systems (pendulum, distillation) and compare a few values.",
  ["dae_index_reduction/pantelides.hpp", "dae_index_reduction/soares_secchi.hpp", "dae_index_reduction/bipartite_graph.hpp", "dae_index_reduction/augment_path_depth_lookahead.hpp", "dae_index_reduction/augment_path_depth_lookahead_a.hpp", "dae_index_reduction/dummy_deriv.hpp", "dae_index_reduction/time_diff.hpp"],
  [("structural index reduction", "dae_index_reduction/pantelides.hpp"), ("equation differentiation", "dae_index_reduction/bipartite_graph.hpp"), ("dummy derivatives", "dae_index_reduction/dummy_deriv.hpp")])
p("C18", "Compilation and saving are all-or-nothing and report failures",
  "Building a library either yields a library with all requested models or throws, whichever compiler or file-system step fails, and temporary files are removed either way unless they were asked to be kept. "
  "Saved sources are complete: compiling exactly the saved files gives the same library.",
  ["fault_sequences", "configurations"],
  "every step of the compiler pipeline failing in turn, for every library kind and option",
  "The tests only build successfully.",
  ["model/compiler/abstract_c_compiler.hpp", "model/compiler/gcc_compiler.hpp", "model/compiler/clang_compiler.hpp", "model/system/linux_system.hpp", "model/dynamic_lib/dynamic_library_processor.hpp", "model/save_files_model_library_processor.hpp", "model/dynamic_lib/ar_archiver.hpp"],
  [("compilation and clean-up", "model/compiler/abstract_c_compiler.hpp"), ("child process execution", "model/system/linux_system.hpp")])
p("C19", "Non-C outputs describe the recorded function",
  "The graph description (DOT) and formula outputs (LaTeX, MathML) generated for a recording describe the same function as the recording: read back, they evaluate to the recorded dependents.",
  ["programs", "configurations"],
  "all operation graphs and the output options that combine or split variables",
  "The tests only check that some output is produced.",
  ["lang/dot/language_dot.hpp", "lang/latex/language_latex.hpp", "lang/mathml/language_mathml.hpp"],
  [("graph printing", "lang/dot/language_dot.hpp"), ("formula printing", "lang/latex/language_latex.hpp"), ("markup printing", "lang/mathml/language_mathml.hpp")])
p("C20", "Compiled models used as functions in other recordings behave as their function",
  "A compiled model that is called inside another recording, through the atomic function it provides, contributes the values, directional derivatives, adjoints and second-order derivatives of the function it was compiled from, for every combination of orders that the recording asks for and any arguments and use of its results. "
  "Sparsity patterns determined through it miss no nonzero element, and what needs a routine that was not generated is refused.",
  ["programs", "inputs", "configurations"],
  "all compiled functions, all compositions around them, all orders and derivative modes",
  "The tests use one or two models whose arguments are the independents and whose results are the dependents.",
  ["model/atomic_generic_model.hpp", "model/generic_model.hpp", "model/functor_generic_model.hpp", "model/generic_model_external_function_wrapper.hpp", "model/atomic_external_function_wrapper.hpp"],
  [("atomic function of a model", "model/atomic_generic_model.hpp"), ("calls between models", "model/generic_model_external_function_wrapper.hpp")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
