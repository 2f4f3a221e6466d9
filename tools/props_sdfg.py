PASS_NOTE = ("random structured programs (up to ~20 statements: loops, maps, whiles, branches, early returns, transitions, references, casts) and random inputs; "
             "sequences of 1-3 passes; the interpreter of the harness is the oracle; symbolic algebra comes from the stand-in for SymEngine in compat/")
PASS_TECH = "differential property-based testing of program transformations against an interpreter"


def passes(pid, title, what, names, files, why):
    prop(pid, title, what, ["inputs", "programs"], "all well-defined structured SDFGs, all pass sequences and all argument values", why, files,
         [(n, f) for n, f in names], PASS_TECH, PASS_NOTE)


passes("C15", "Data-flow passes preserve what every program computes",
       "Running any sequence of the data-flow passes and pipelines (constant, dead-data and reference propagation and elimination, tasklet fusion, memlet linearisation, tensor lowering, trivial arrays and references, allocation management) on any well-defined structured SDFG leaves a valid SDFG whose outputs and return value equal those of the original for every input. Each pass stops reporting changes after finitely many runs.",
       [("ConstantPropagation, DeadDataElimination, ReferencePropagation, TaskletFusion, ...", "sdfg/src/passes/dataflow"), ("Pipeline::dataflow_simplification / memlet_combine / memory", "sdfg/src/passes/pipeline.cpp")],
       ["sdfg/src/passes/dataflow", "sdfg/src/passes/pipeline.cpp", "sdfg/src/analysis/data_dependency_analysis.cpp", "sdfg/src/analysis/users.cpp"],
       "The tests apply each pass to one or two hand-built programs and inspect the shape of the result; whether the meaning survives for other programs is not examined.")
passes("C16", "Control-flow passes preserve what every program computes",
       "Running any sequence of the control-flow passes and pipelines (dead control flow, sequence and block fusion, condition and common-assignment elimination, while-to-for conversion, loop normalisation, pointer evolution, block hoisting and sorting) on any well-defined structured SDFG leaves a valid SDFG whose outputs and return value equal those of the original for every input. Each pass stops reporting changes after finitely many runs.",
       [("DeadCFGElimination, BlockFusion, ConditionElimination, WhileToForConversion, ...", "sdfg/src/passes/structured_control_flow"), ("BlockHoisting / BlockSorting", "opt/src/passes/offloading/code_motion")],
       ["sdfg/src/passes/structured_control_flow", "opt/src/passes/offloading/code_motion", "sdfg/src/passes/pipeline.cpp"],
       "The tests check hand-built shapes; interactions of loop-carried symbols, zero-trip loops, jumps and aliases are not sampled.")
passes("C17", "Symbolic passes preserve what every program computes",
       "Propagating, evolving and promoting symbols and minimising index types, alone or with other passes, leaves a valid SDFG whose outputs and return value equal those of the original for every well-defined program and input.",
       [("SymbolPropagation, SymbolEvolution, SymbolPromotion, TypeMinimization", "sdfg/src/passes/symbolic"), ("Pipeline::symbolic_simplification / expression_combine", "sdfg/src/passes/pipeline.cpp")],
       ["sdfg/src/passes/symbolic", "sdfg/src/symbolic/series.cpp", "sdfg/src/analysis/assumptions_analysis.cpp"],
       "The tests check the rewritten expression of small loops; loop-carried updates, several reaching definitions and negative or zero-trip bounds are not combined.")
passes("C18", "Parallelised and normalised loops compute what the original loops compute",
       "Every loop turned into a map may execute its iterations in any order: programs after For2Map, loop distribution, stride minimisation and the loop normalisation pipeline give the original outputs for forward, backward and shuffled iteration orders, for every well-defined program and input.",
       [("For2MapPass", "sdfg/src/passes/structured_control_flow/for2map.cpp"), ("PerfectLoopDistribution / StrideMinimization", "opt/src/passes/normalization"), ("DataDependencyAnalysis::dependencies", "sdfg/src/analysis/data_dependency_analysis.cpp")],
       ["sdfg/src/passes/structured_control_flow/for2map.cpp", "opt/src/passes/normalization", "sdfg/src/analysis/data_dependency_analysis.cpp", "sdfg/src/symbolic/maps.cpp", "sdfg/src/symbolic/utils.cpp"],
       "A wrong independence claim only shows for particular subscripts, bounds and iteration orders; the tests never execute a program.")
prop("C19", "Serialised, cloned and copied programs are the program they came from",
     "Writing any structured SDFG to JSON text and reading it back, cloning it, copying its body into another program with the deep-copy utility, or copying a node gives a program with the same containers, types, structures, control flow, data flow, expressions, schedules, library nodes, metadata and debug information; clones keep element ids, fresh ids never collide, and neither copy changes the original.",
     ["inputs", "programs"], "all valid structured SDFGs with any types, storage, schedules, library nodes, metadata and debug information",
     "The tests serialise one hand-built example per kind of element with default attributes and compare a few fields.",
     ["sdfg/src/serializer/json_serializer.cpp", "sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp", "sdfg/src/builder/structured_sdfg_builder.cpp", "sdfg/src/data_flow/library_nodes", "sdfg/src/structured_sdfg.cpp"],
     [("JSONSerializer::serialize / deserialize", "sdfg/src/serializer/json_serializer.cpp"), ("StructuredSDFG::clone", "sdfg/src/structured_sdfg.cpp"), ("StructuredSDFGDeepCopy", "sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp"), ("library node serializers", "sdfg/src/data_flow/library_nodes")],
     "round-trip property-based testing with a complete structural comparison",
     "random programs decorated with arbitrary types, schedules, metadata and debug information, every registered library node with random parameters; symbolic expressions come from the stand-in for SymEngine in compat/; the assumptions attached to a function are not part of the format and not compared")
prop("C20", "Generated C and C++ code computes what the program means",
     "For every well-defined structured SDFG (any tasklet operation, primitive type, math function, symbolic expression, structure, pointer, control flow, memory management) the generated C and C++ source compiles and, run on any input, leaves the same array contents and returns the same value as the program itself.",
     ["inputs", "programs"], "all well-defined structured SDFGs the C and C++ generators accept and all argument values",
     "The tests compare printed strings of single constructs with expected strings; the code is never compiled or run.",
     ["sdfg/src/codegen", "sdfg/include/sdfg/codegen", "rtl/include/daisy_rtl/daisy_rtl.h"],
     [("CCodeGenerator / CPPCodeGenerator", "sdfg/src/codegen/code_generators"), ("CLanguageExtension / CPPLanguageExtension", "sdfg/src/codegen/language_extensions"), ("node dispatchers", "sdfg/src/codegen/dispatchers")],
     "differential property-based testing: generated code compiled with gcc and run against the interpreter",
     "random programs of up to ~20 statements; integers follow -fwrapv and 64-bit index arithmetic without overflow; CUDA, instrumented and captured code is not executed; symbolic algebra comes from the stand-in for SymEngine in compat/")
prop("C21", "Answers of the symbolic layer hold for every value of the symbols",
     "Building, simplifying, expanding and substituting symbolic expressions and conditions, their normal forms, polynomials, affine coefficients and divisions keep the value for all symbol values. Bounds under assumptions bound every allowed value, and every positive answer (equal, monotonic, contiguous, disjoint, subset, no intersection, delinearised dimensions within their strides) is true for all values the assumptions allow.",
     ["inputs"], "all expressions, conditions and assumptions, and all integer values of the symbols for which they are defined",
     "The tests compare the printed form of a few expressions; a wrong positive answer shows only for particular signs, strides, steps and bounds.",
     ["sdfg/src/symbolic", "sdfg/include/sdfg/symbolic"],
     [("simplify, subs, divide_ceil", "sdfg/src/symbolic/symbolic.cpp"), ("minimum / maximum", "sdfg/src/symbolic/extreme_values.cpp"), ("is_disjoint / is_subset / intersects / is_monotonic", "sdfg/src/symbolic/sets.cpp, maps.cpp, series.cpp"), ("delinearize", "sdfg/src/symbolic/utils.cpp"), ("conjunctive_normal_form, polynomials", "sdfg/src/symbolic")],
     "property-based testing against integer evaluation and enumeration of the allowed values",
     "random expressions of depth <= 4 and boxes of up to ~150 points per parameter choice; values beyond 62 bits and division by zero are outside the domain; SymEngine itself is the stand-in in compat/")
prop("C22", "A function marked @native computes what Python and NumPy compute",
     "For every function the Python front end compiles (loops, branches, integer and float arithmetic, element and slice reads and stores, elementwise, broadcasting, reduction and matrix operations, array creation, returns) and every history of calls with arguments of any size, value and memory layout, the compiled function returns the values the undecorated function returns, leaves the same contents in every array argument and writes nothing outside them.",
     ["inputs", "programs", "histories"], "all functions of the supported subset, all sizes >= 3, all values, C, Fortran and strided layouts, all call histories",
     "The tests compile one fixed function per feature and call it once or twice; combinations of features, other sizes and layouts and repeated calls of one compiled function are not sampled.",
     ["python/docc/python", "python/docc/compiler", "python/bindings", "sdfg/src/data_flow/library_nodes/math", "sdfg/src/passes", "sdfg/src/codegen"],
     [("ASTParser", "python/docc/python/ast_parser.py"), ("PythonProgram.compile", "python/docc/python/python_program.py"), ("CompiledSDFG", "python/docc/compiler/compiled_sdfg.py"), ("bindings", "python/bindings")],
     "differential property-based testing of compiled functions against CPython and NumPy",
     "random functions of up to ~25 lines and 1-3 calls each; a function the front end rejects counts as rejected, not as a violation; in-place slice assignments that read the array they write and matrix products of views or non-C-contiguous operands are known findings and not generated; runs without LLVM's polly and OpenMP, with a small stand-in for pybind11 and BLAS")
