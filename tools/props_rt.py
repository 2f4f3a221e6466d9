prop("C01", "Argument captures are read back unaltered from memory and from their index",
     "Whatever sequence of invocations, inline captures, captures to files and clears is recorded for any number of elements, the recorder always holds exactly the most recent capture of every (element, argument, before/after) with its type, dimensions and bytes. Writing the index and loading it again yields the same name, invocation number and captures, byte for byte. A capture or index that cannot be written is reported as failed, and a failed capture holds no contents.",
     ["histories", "inputs", "fault_sequences"], "all histories of recorder operations, all argument types, shapes and contents, and unwritable targets",
     "The tests record one or two fixed arrays once; re-capturing, switching between inline and file storage, several elements and write faults are never combined.",
     ["arg-capture-io/src/arg_capture_io.cpp", "arg-capture-io/include/daisy_rtl/arg_capture_io.h"],
     [("ArgCaptureIO::create_and_capture_inline / create_and_capture_to_file / write_index", "arg-capture-io/src/arg_capture_io.cpp"), ("ArgCaptureIO::from_index", "arg-capture-io/include/daisy_rtl/arg_capture_io.h")],
     "stateful model-based property testing", "random operation histories (up to 60 operations, arrays up to 4 KiB) against a reference map; ASan/UBSan")
prop("C02", "A damaged capture index is rejected with an error, never misread or crashed on",
     "Loading any file as a capture index either succeeds or raises a standard exception, without undefined behaviour. A well-formed index is loaded with exactly the name, invocation and entries it lists, whatever further entries it has. An index of another format version, an index that is not JSON and an index or capture entry without a required field are always rejected.",
     ["inputs", "fault_sequences"], "all byte contents of an index file: valid ones, structurally damaged ones and byte-level damage",
     "The tests only load indexes the library has just written.",
     ["arg-capture-io/src/arg_capture_io.cpp", "arg-capture-io/include/daisy_rtl/arg_capture_io.h"],
     [("ArgCaptureIO::from_index", "arg-capture-io/include/daisy_rtl/arg_capture_io.h"), ("ArgCapture::parse_from", "arg-capture-io/src/arg_capture_io.cpp")],
     "structured fuzzing with an acceptance oracle", "grammar-based and byte-level mutation of index files under ASan/UBSan")
prop("C03", "Base64 text encodes and decodes arbitrary bytes exactly",
     "Encoding any byte string gives the standard padded base64 text of it, and decoding that text gives the bytes back. Decoding arbitrary text stops at the first character outside the alphabet and returns the bytes encoded up to there without undefined behaviour.",
     ["inputs"], "all byte strings and all texts", "No test calls the codec directly; captures in tests have a handful of lengths, while errors hide in length classes modulo 3 and in high bytes.",
     ["arg-capture-io/src/base64.cpp"], [("base64_encode / base64_decode", "arg-capture-io/src/base64.cpp")],
     "property-based testing against a reference codec", "random byte strings and texts against an independent RFC 4648 implementation")
prop("C04", "The capture strategy decides which invocations are recorded, and each survives",
     "A captured context records every invocation, only the first of each element, or none, as its strategy says, counting invocations per element and reading strategy and directory once when it is created. After any history each recorded invocation has its own index holding exactly the arguments given during that invocation, with contents unaltered by later invocations, and no other index exists. A disabled context ignores all calls, and an argument that cannot be written is an error.",
     ["histories", "configurations"], "all histories of enter/capture/end over several contexts and elements, all strategies and directory settings",
     "The integration tests run one program per strategy with fixed arrays; interleaved contexts, large inline versus file captures and repeated invocations are not combined.",
     ["rtl/src/capture.cpp", "arg-capture-io/src/arg_capture_io.cpp"], [("__daisy_capture_init / enter / raw / 1d / 2d / 3d / end", "rtl/src/capture.cpp")],
     "stateful model-based property testing", "histories of up to 25 invocations over 1-2 contexts through the C ABI; the directory contents are compared with a model")
prop("C05", "The instrumentation trace is valid and matches the measured history",
     "For any history of region registration, entry, exit and finalisation, with any events and any metadata text, the trace written at exit is valid JSON with one event per entry carrying the region's metadata, start time, duration and counter differences. Regions that are registered again continue under the same identity, and hardware event sets are neither leaked nor used after release.",
     ["histories", "configurations"], "all region histories, event lists and metadata", "The tests run one program with one or two regions against a stub and need a PAPI library that is absent here.",
     ["rtl/src/instrumentation.cpp"], [("__daisy_instrumentation_init / enter / exit / finalize", "rtl/src/instrumentation.cpp")],
     "stateful model-based property testing with a recording PAPI stand-in", "forked programs with random region histories; output parsed and compared with a model of clock and counters")
prop("C06", "Aggregated instrumentation reports the statistics of the measured samples",
     "In aggregate mode each region is reported once, with the count, mean, variance, minimum and maximum of its runtimes, of its counter differences and of the values supplied for static counters and metrics. The statistics equal those of the samples of the history, and a region without samples is reported without invented values.",
     ["histories", "inputs"], "all region histories and sample values", "The tests check that keys exist for a single run; numeric statistics over many samples are not examined.",
     ["rtl/src/instrumentation.cpp"], [("aggregate update in exit_region / provided_metric", "rtl/src/instrumentation.cpp")],
     "stateful model-based property testing with a recording PAPI stand-in", "random histories; statistics recomputed from the samples with tolerance 1e-5 (output has six digits)")
prop("C07", "Runtime index helpers compute exact integer results in C and C++",
     "The power helper available to generated code returns the exact power of 64-bit indices whenever it is representable and zero for negative exponents. Minimum, maximum and multiply-add evaluate correctly for compound argument expressions, identically in C and C++.",
     ["inputs"], "all 64-bit bases and exponents with representable results, compound arguments", "No test includes the helpers in C or uses values beyond 32 bits.",
     ["rtl/include/daisy_rtl/daisy_rtl.h"], [("__daisy_sym_pow, __daisy_min, __daisy_max, __daisy_fma", "rtl/include/daisy_rtl/daisy_rtl.h")],
     "property-based testing against exact arithmetic", "compared with 128-bit arithmetic, compiled as C and as C++, under UBSan")
prop("C08", "Graph traversals, orders and components agree with their definitions",
     "For every directed graph, traversals visit exactly the reachable vertices once each in an admissible order, topological orders respect every edge, back edges are exactly those whose removal leaves no cycle reachable from the root in reducible graphs, and components, in/out edges and reversals match their definitions. Queries leave the graph unchanged.",
     ["inputs"], "all directed multigraphs", "The tests use one small fixed graph per algorithm.",
     ["sdfg/src/graph/graph.cpp", "sdfg/include/sdfg/graph/graph.h"], [("depth_first_search, topological_sort, back_edges, strongly_connected_components, ...", "sdfg/src/graph/graph.cpp")],
     "property-based testing against definitional oracles", "random graphs up to 24 (occasionally 320) vertices in five shapes, compared with brute-force definitions")
prop("C09", "Dominator and post-dominator trees match their definition and keep the graph",
     "For every control-flow graph and root, a vertex's immediate dominator is the closest other vertex through which every path from the root to it passes, and vertices that cannot be reached have none and do not influence others. Post-dominators obey the same definition towards the exits, with any number of exits, and computing either leaves the graph as it was.",
     ["inputs"], "all flow graphs, roots, numbers of exits, with unreachable parts", "The tests use one diamond-like graph with a single exit.",
     ["sdfg/src/graph/graph.cpp"], [("dominator_tree / post_dominator_tree", "sdfg/src/graph/graph.cpp")],
     "property-based testing against definitional oracles", "random graphs up to 14 (occasionally 200) vertices; dominance recomputed by removing vertices")
prop("C10", "Path enumeration yields every simple path exactly once",
     "Between any two vertices of any directed graph the enumeration returns every simple path exactly once, each a connected edge sequence from source to destination without repeated vertices, and nothing else; from a vertex to itself these are the simple cycles through it.",
     ["inputs"], "all directed multigraphs and vertex pairs", "The test asks for the paths of one diamond.",
     ["sdfg/src/graph/graph.cpp"], [("all_simple_paths", "sdfg/src/graph/graph.cpp")],
     "property-based testing against an independent enumeration", "random graphs up to 7 vertices, and lines of up to 300 vertices with shortcuts")
prop("C11", "String and set helpers match their definitions",
     "Number recognition and parsing, suffix tests, joining, splitting and set intersection give the defined result for every input; in particular splitting and joining with the same delimiter are inverse.",
     ["inputs"], "all strings, integers, delimiters and sets", "The tests have a few literal examples.",
     ["sdfg/include/sdfg/helpers/helpers.h"], [("helpers::*", "sdfg/include/sdfg/helpers/helpers.h")],
     "property-based testing against reference functions", "generated strings, numbers and sets")
prop("C12", "RPC configuration layers override each other in the documented order",
     "Any sequence of defaults, configuration files, environment variables and explicit headers results in the address and headers given by the last layer that set each of them; ill-typed or unknown entries are ignored, and missing or malformed files are errors. A context is only built when a server is set.",
     ["histories", "configurations", "inputs"], "all sequences of configuration steps and file contents", "The tests call each step once on a fresh builder.",
     ["rpc/src/passes/rpc/rpc_context.cpp", "rpc/include/sdfg/passes/rpc/rpc_context.h"], [("SimpleRpcContextBuilder, build_rpc_context_auto", "rpc/src/passes/rpc/rpc_context.cpp")],
     "stateful model-based property testing", "sequences of up to 10 steps against a dictionary model")
prop("C13", "Credentials are taken from the highest-ranking source and sent as such",
     "For every combination of job token, access token, token file in the home directory and session file the highest-ranking one is used (an empty environment variable counts as absent, a token file that exists counts as present, and its trailing white space is dropped), and sent in the authorization header of its kind; without any, no authenticated context is built. A server override applies to every source.",
     ["configurations"], "all combinations of present, empty and absent sources", "The tests set at most one source at a time.",
     ["rpc/src/passes/rpc/daisytuner_rpc_context.cpp", "rpc/src/passes/rpc/rpc_context.cpp"], [("credential lookup, DaisytunerRpcContext", "rpc/src/passes/rpc/daisytuner_rpc_context.cpp")],
     "property-based testing over the configuration space", "random configurations in a scratch home directory; access to the system session file is redirected")
prop("C14", "The HTTP transport delivers requests unaltered and reports every failure",
     "A request arrives at the addressed path with exactly the given body and headers, and the reply's status and body are returned exactly, however the server frames or splits it. Every HTTP error status and every transport fault gives a non-empty error message, and success gives none.",
     ["inputs", "fault_sequences"], "all payloads, headers, replies, framings and connection faults", "No test performs a request.",
     ["rpc/src/util/utils_curl.cpp"], [("post_json", "rpc/src/util/utils_curl.cpp")],
     "fault-injecting property testing against a scripted server", "loopback server with random status, framing, truncation and refusal")
prop("C23", "Threads that use different regions are recorded completely and without races",
     "Threads may register, enter, leave, finalise and annotate their own regions at the same time, and hand regions over between them: every execution is recorded exactly once with its own clock and counter values, in trace and in aggregate mode, and the runtime has no data race. Capture contexts of different threads are independent of each other.",
     ["schedules", "histories"], "all interleavings of threads that use different regions and capture contexts", "No test uses the runtime from more than one thread.",
     ["rtl/src/instrumentation.cpp", "rtl/src/capture.cpp"], [("DaisyInstrumentationState", "rtl/src/instrumentation.cpp"), ("__daisy_capture_*", "rtl/src/capture.cpp")],
     "property-based testing of concurrent programs under a race detector", "generated programs of 2-5 threads under ThreadSanitizer with a PAPI stand-in whose locking the detector cannot see; schedules are those the system produces")
