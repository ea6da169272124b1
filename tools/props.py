"""The properties and what each one's check runs.  cases = (quick, thorough).
tools/mkmanifest.py derives properties.jsonl and MANIFEST.json from this file."""

SAN = "AddressSanitizer+UBSan instrumented build; "


def P(title, statement, over, qtext, why, files, mech, parts, rule, technique, note, need=None, min_distinct=2,
      state=None, observe=None, **kw):
    d = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
             mech=[dict(name=n, where=w) for n, w in mech],
             state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])], observe=observe or [],
             parts=parts, rule=rule, technique=technique, note=note, need=need or {}, min_distinct=min_distinct)
    d.update(kw)
    return d


PROPS = {}
NOT_APPLICABLE = {}
NA_DEFS = {}

IDE = "include/phasar/DataFlow/IfdsIde/"
PROPS["P01"] = P(
    "IDE solver computes the exact solution of every distributive IDE problem",
    "For every finite distributive IDE problem over an inter-procedural LLVM program, the facts and values the IDE solver reports at "
    "each statement are exactly the join over all interprocedurally valid paths from the seeds: no fact or value is missing, none is "
    "added, and none is less or more precise. This covers recursion, loops, calls with several possible callees, invokes, functions "
    "replaced by special summaries, automatic zero propagation on or off, and edge functions of every memory policy.",
    ["programs", "inputs"],
    "all programs (call graphs with recursion, indirect calls, loops, unreachable code), all distributive flow/edge functions over finite domains, all seed placements at entry points",
    "The unit tests run a handful of hand-written analyses on small fixed programs; exactness must hold for every program, every flow function "
    "and every order in which the worklist happens to discover summaries, recursion and joins.",
    [IDE + "Solver/IDESolver.h", IDE + "Solver/JumpFunctions.h", IDE + "Solver/FlowEdgeFunctionCache.h", IDE + "FlowFunctions.h", IDE + "InitialSeeds.h"],
    [("tabulation phase I: process call/exit/normal, end summaries and incoming tables", IDE + "Solver/IDESolver.h"),
     ("value phase II", IDE + "Solver/IDESolver.h"), ("jump-function tables", IDE + "Solver/JumpFunctions.h"),
     ("flow/edge function caches and zero wrapping", IDE + "Solver/FlowEdgeFunctionCache.h")],
    parts=[dict(harness="p01", cases=(6000, 150000))],
    rule="random interprocedural LLVM programs (recursion, indirect calls, invokes, loops, dead code) x random distributive "
         "IDE problems; distinct by hash of the reference solution; non-trivial if a non-zero fact holds and a call is reached",
    technique="differential runtime oracle: real solver vs naive fixpoint of the valid-path equations, under ASan/UBSan",
    note="Exact agreement on every fact of every generated problem (finite powerset lattice, up to 5 facts, up to 6 functions); trusts the reference solver in harness/idegen.h.",
    need={"reached_multi_target_calls": 50, "reached_summary_calls": 50, "values_below_bottom": 1000}, min_distinct=500,
    observe=["IDESolver::solve() results at every instruction"])
PROPS["P02"] = P(
    "IFDS solver reports exactly the facts reachable along realizable paths",
    "For every IFDS problem the facts the solver reports at a statement are exactly those reachable from the seeds in the exploded supergraph "
    "along paths whose calls and returns match, whichever result interface (solver view, IFDS solver, or owned results of the free "
    "function) is used to read them.",
    ["programs", "inputs"],
    "all programs and all flow functions over finite fact domains",
    "Unit tests check selected facts at selected lines of fixed programs; context-sensitivity errors only show up for particular call/return/recursion shapes.",
    [IDE + "Solver/IFDSSolver.h", IDE + "Solver/IDESolver.h", IDE + "IFDSTabulationProblem.h", IDE + "SolverResults.h"],
    [("IFDS as IDE over the binary domain", IDE + "IFDSTabulationProblem.h"), ("result accessors", IDE + "SolverResults.h")],
    parts=[dict(harness="p02", cases=(8000, 200000))],
    rule="as P01, with random IFDS problems; non-trivial if a non-zero fact holds and a call is reached",
    technique="differential runtime oracle: real solver vs realizable-path reachability, under ASan/UBSan",
    note="Exact agreement for every fact at every instruction of each generated problem; trusts the reference in harness/idegen.h.",
    need={"facts_holding": 1000, "reached_calls": 1000}, min_distinct=500)
PROPS["P03"] = P(
    "Results do not depend on how the solver is driven, configured or queried",
    "Solving in one go, in single steps, in chunks of any size, with cancellation (by predicate, flag from any thread, or timeout) at any point "
    "followed by continuing, with recording/summary/graph options on, with the path-aware solver, or through the free functions always terminates and yields the "
    "same result table. All ways of reading the results (single value, row with or without the zero fact, SSA-adjusted queries, fact sets, all entries, dump, owned "
    "copies) agree with that table.",
    ["histories", "configurations", "programs", "schedules"],
    "all cancellation points and continuation sequences, step sizes, check intervals, option combinations, and programs",
    "Unit tests interrupt one solver run with one timeout; the cancellation point, interval and continuation history are unbounded.",
    [IDE + "Solver/IDESolverAPIMixin.h", IDE + "Solver/IDESolver.h", IDE + "Solver/PathAwareIDESolver.h", IDE + "SolverResults.h",
     IDE + "IFDSIDESolverConfig.h", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h", "include/phasar/Utils/Table.h"],
    [("interruptible solving API", IDE + "Solver/IDESolverAPIMixin.h"), ("result views", IDE + "SolverResults.h")],
    parts=[dict(harness="p03", cases=(1600, 40000))],
    rule="random programs and problems; each solved in 13 ways (single-step, chunked, cancelled at random points and continued, "
         "timeouts, options, path-aware) and read in 9 ways; non-trivial if the result table has more than 10 entries",
    technique="metamorphic runtime monitor over solver histories with injected cancellations, under ASan/UBSan",
    note="Equality of complete result tables across 13 driving modes per case with random cancellation histories; wall-clock-dependent interrupts are only exercised, never used as verdicts.",
    need={"interruptions": 200, "next_steps": 1000, "invoke_ssa_merges": 10}, min_distinct=200)
PROPS["P06"] = P(
    "Unbalanced returns carry facts to every caller exactly when enabled",
    "With following of returns past seeds enabled, facts established in a seeded function that the analysis did not enter through a call flow to the "
    "return sites of all of its callers, transitively, and into functions called from there, with the values the edge functions prescribe; for IFDS as for IDE problems. "
    "With the option disabled no fact leaves the seeded function through a return.",
    ["programs", "configurations"],
    "all call chains above a seeded function whose seeded contexts are not re-entered by calls; both settings of the option",
    "Hardly any unit test seeds inside a callee, and none checks the facts at all return sites above it.",
    [IDE + "Solver/IDESolver.h", IDE + "IFDSIDESolverConfig.h"],
    [("unbalanced return flow in exit processing", IDE + "Solver/IDESolver.h"), ("initial values at unbalanced return sites", IDE + "Solver/IDESolver.h")],
    parts=[dict(harness="p06", cases=(6000, 150000))],
    rule="random programs with call chains above a seeded function; seeds at the start of the function or (facts only) at any of its statements; non-trivial if non-zero facts hold and (when following) leave the seed function",
    technique="differential runtime oracle: real solver vs reference with unbalanced returns, under ASan/UBSan",
    note="Exact agreement for all non-zero facts; programs whose seeded contexts are re-entered by balanced calls are outside (the solver stops unbalanced returns there by design).",
    need={"unbalanced_returns": 500, "programs_seeded_inside": 200}, min_distinct=200)

PROPS["P04"] = P(
    "Edge functions compose and join soundly, and own their storage correctly",
    "For the library's edge functions and functions built from its default helpers: composing f with g behaves like g after f, joining is at least the join of both results, and "
    "neither loses precision except where documented (AllBottom, a bound on joined functions). Equal functions behave equally and hash equally, functions calling themselves constant are "
    "constant, and chains of joins stabilise. Copying, moving, swapping, hashing, caching and destroying edge functions in any order, from any thread, preserves their value, frees each exactly "
    "when its last owner dies, and keeps one object per cached value.",
    ["inputs", "histories", "schedules"],
    "all expressions over edge functions of several lattices and all input values; all histories of copies, moves, swaps, cache lookups and destructions, also concurrent",
    "Unit tests compose or copy a few chosen functions; the solver builds arbitrarily nested compositions and joins and relies on equality for termination.",
    [IDE + "EdgeFunction.h", IDE + "EdgeFunctionUtils.h", IDE + "EdgeFunctionSingletonCache.h", IDE + "DefaultEdgeFunctionSingletonCache.h", "include/phasar/Domain/LatticeDomain.h"],
    [("type-erased ref-counted storage", IDE + "EdgeFunction.h"), ("composition and join helpers", IDE + "EdgeFunctionUtils.h"),
     ("singleton cache", IDE + "DefaultEdgeFunctionSingletonCache.h")],
    parts=[dict(harness="p04", cases=(12000, 400000))],
    rule="random expression pools evaluated on every lattice value against pointwise composition/join, and random ownership histories against a shadow model; distinct by value tables / op traces",
    technique="runtime oracle: pointwise evaluation and a shadow ownership model with live-object counting, under ASan/UBSan and thread stress",
    note="Exhaustive over lattice values per expression (17-value powerset, flat integers); histories up to 300 operations; thread interleavings only by stress.",
    need={"exact_results": 10000, "storage_steps": 100000, "threaded_copies": 100000, "equal_pairs": 10000}, min_distinct=1000)
PROPS["P05"] = P(
    "Flow-function building blocks compute exactly their documented sets",
    "Every flow-function template (identity, lambda, generate, kill, transfer, union, compose, zero-preserving) and every LLVM mapper "
    "(call-to-return, actuals to formals, formals and return value to the caller, strong store updates) returns exactly the documented set of facts for every "
    "fact, predicate, container and flag combination, including varargs, sret, constants and repeated arguments, and however often it is applied.",
    ["inputs", "configurations"],
    "all facts, fact sets, predicates, flags, container types, and call/store shapes",
    "Unit tests apply each template to two or three facts with one container; analyses combine them with arbitrary predicates, flags and call shapes.",
    [IDE + "FlowFunctions.h", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"],
    [("templates", IDE + "FlowFunctions.h"), ("LLVM mappers", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h")],
    parts=[dict(harness="p05", cases=(12000, 300000))],
    rule="random parameters for each template over three container/fact types and random call/store shapes, applied to every fact of the universe twice; distinct by results",
    technique="runtime oracle: set-valued reference functions vs the real flow functions, under ASan/UBSan",
    note="Each instance is applied to its whole universe of facts (6 abstract facts; all values of the generated module).",
    need={"generating_applications": 1000, "killing_applications": 1000, "mapper_mappings": 10000}, min_distinct=1000)

DFA = "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/"
PROPS["P07"] = P(
    "Linear constant analysis is sound on all paths and finds linear constants",
    "In programs whose integers are scalars (locals, globals, and parameters passed by value or by unaliased reference) holding constants, arithmetic, casts and the results of "
    "analysed calls, a constant the linear constant analysis reports for a variable at a statement is its value, in its type's width and signedness, on every execution path that reaches "
    "the statement. A variable computed in the same way on all paths from a constant by steps with one literal operand (without overflow or undefined arithmetic) is "
    "reported with that constant; one whose value differs between paths or is unknown is never reported as constant.",
    ["programs", "paths"],
    "all scalar integer programs with calls, recursion, loops and globals, and all their paths; all integer widths and operand values",
    "Unit tests compare a few lines of a few fixed programs; soundness is a claim about every path and every operand value, including overflow and signedness.",
    [DFA + "IDELinearConstantAnalysis.cpp", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h", IDE + "Solver/IDESolver.h"],
    [("flow and edge functions", DFA + "IDELinearConstantAnalysis.cpp"), ("arithmetic on constants", DFA + "IDELinearConstantAnalysis.cpp")],
    parts=[dict(harness="p07", cases=(6000, 150000))],
    rule="random scalar programs; every path (up to 120, else 60 sampled ones) executed on a concrete interpreter and compared with the analysis at every statement and variable; distinct by the set of confirmed constants",
    technique="runtime monitor: analysis results vs concrete executions of the analysed program on an independent interpreter, under ASan/UBSan",
    note="Precision is only required where all paths were enumerated; values the analysis does not track by design (external results, entry parameters, memory through pointers) are recorded findings.",
    need={"constants_confirmed": 20000, "bottoms": 20000, "non_constants_seen": 20000, "programs_with_all_paths": 500}, min_distinct=500)

U = "include/phasar/Utils/"
PROPS["P18"] = P(
    "A BitVectorSet is a set, whatever other sets of its type do",
    "For every history of operations on any number of BitVectorSets of one element type, each behaves as a mathematical set: membership, size, emptiness, union, intersection, "
    "difference, inclusion, equality, hashing (equal sets hash equally), a strict total order consistent with equality, printing, and iteration, which "
    "visits every element exactly once, also while other sets of the type learn new elements, and iterator arithmetic that follows the iteration.",
    ["histories", "inputs"],
    "all histories over several sets sharing the element table, all element types and insertion orders",
    "The element table is shared by all sets of a type, so a set's behaviour depends on the history of all others; unit tests use two fresh sets with a few elements.",
    [U + "BitVectorSet.h", U + "Utilities.h"],
    [("bit set over a shared position table", U + "BitVectorSet.h")],
    parts=[dict(harness="p18", cases=(600, 20000), chunk=1, lib=False)],
    rule="random operation histories over 2-6 sets (ints, strings, pointers) with universes around word boundaries; distinct by operation trace",
    technique="runtime oracle: std::set models checked after every operation, under ASan/UBSan",
    note="Each case runs 12 histories of up to 80 operations in a fresh process, later ones on a table already filled by earlier ones.",
    need={"operations": 50000, "iterations_while_growing": 2000, "equal_pairs": 50000, "memberships": 1000000}, min_distinct=1000)
PROPS["P19"] = P(
    "Containers and helpers keep their contents, references, ownership and lifetimes",
    "For every history, StableVector, Table, EquivalenceClassMap (each key inserted with one value), AdjacencyList and MaybeUniquePtr hold exactly what was put in and not removed; StableVector elements never move, and are "
    "constructed and destroyed exactly once, also over copies, moves, swaps, clear, pop_back_n and shrink_to_fit; owned objects are deleted exactly once. remove_by_index, intersectWith, "
    "computePowerSet, StringIDLess (numeric ids before others, each in their natural order), flags, ranges, averages and boxed pointers compute what they document for every argument.",
    ["histories", "inputs"],
    "all operation histories and arguments",
    "Unit tests exercise a few fixed sequences; block boundaries, reuse after shrinking, self-moves and unusual iterator categories are hit only by particular histories.",
    [U + "StableVector.h", U + "Table.h", U + "EquivalenceClassMap.h", U + "MaybeUniquePtr.h", U + "AdjacencyList.h", U + "Utilities.h", "lib/Utils/Utilities.cpp"],
    [("stable block storage", U + "StableVector.h"), ("two-level table", U + "Table.h"), ("optional ownership", U + "MaybeUniquePtr.h")],
    parts=[dict(harness="p19", cases=(24000, 600000))],
    rule="random operation histories against standard-library models with element lifetime accounting; distinct by operation trace",
    technique="runtime oracle: standard-library models and live-object accounting after every operation, under ASan/UBSan",
    note="Histories up to 60 operations and 1500 elements; a key of EquivalenceClassMap is only ever inserted with one value.",
    need={"stablevector_operations": 100000, "table_operations": 20000, "uniqueptr_states": 20000, "removals": 5000, "id_comparisons": 20000}, min_distinct=1000)
PROPS["P20"] = P(
    "Graph minimisation and reversal preserve paths exactly",
    "For every graph, minimizeGraph merges only vertices with the same labelled, weighted unfoldings; on acyclic graphs it merges all vertices whose unfoldings are identical trees; "
    "createEquivalentGraphFrom yields a graph with one vertex per class reachable from the roots, no duplicate edges, and exactly the original's labelled paths from its roots; "
    "reverseGraph reverses each edge, keeps nodes and weights, and makes exactly the sinks its roots.",
    ["inputs"],
    "all finite graphs, cyclic or not, with any labels, weights, multi-edges and roots",
    "Unit tests minimise one or two fixed graphs; wrong merges only show up for particular sharing of labels and successors.",
    [U + "DFAMinimizer.h", U + "GraphTraits.h", U + "AdjacencyList.h"],
    [("equivalence computation and quotient", U + "DFAMinimizer.h"), ("reversal", U + "GraphTraits.h")],
    parts=[dict(harness="p20", cases=(40000, 1000000))],
    rule="random weighted and unweighted graphs (up to 12 vertices, cyclic and acyclic); non-trivial if vertices were merged; distinct by graph",
    technique="runtime oracle: partition refinement (coarsest bisimulation) of the real input and output graphs, under ASan/UBSan",
    note="Exact for each generated graph; completeness is only required for acyclic graphs with identically ordered successors.",
    need={"merged_pairs": 10000, "identical_subtrees": 5000, "distinguishable_pairs": 100000}, min_distinct=1000)

CF = "PhasarLLVM/ControlFlow/"
PROPS["P12"] = P(
    "Control-flow graphs reproduce LLVM's block structure, forwards and backwards",
    "For every valid function, with and without ignoring debug intrinsics, the forward CFG's successors and predecessors of an instruction are exactly the next (previous) statement of its block or the first "
    "(last) statements of the blocks LLVM's terminators connect, and are inverse to each other; the backward CFG is exactly its converse with one artificial exit where a function has several start points; "
    "start and exit points, edges, field and heap accesses, branch targets, statement ids and special member functions are classified as the instructions define.",
    ["programs"],
    "all valid LLVM functions: any branches, switches, invokes, indirect branches, self loops, unreachable blocks, several or no exits, leading debug intrinsics",
    "Unit tests check single edges of small functions compiled by clang; multi-way terminators, debug intrinsics at block borders and functions without exit do not occur there.",
    ["lib/" + CF + "LLVMBasedCFG.cpp", "lib/" + CF + "LLVMBasedBackwardCFG.cpp", "include/phasar/ControlFlow/CFGBase.h", "include/phasar/" + CF + "LLVMBasedCFG.h"],
    [("forward CFG", "lib/" + CF + "LLVMBasedCFG.cpp"), ("backward CFG", "lib/" + CF + "LLVMBasedBackwardCFG.cpp"), ("special members", "include/phasar/ControlFlow/SpecialMemberFunctionType.h")],
    parts=[dict(harness="p12", cases=(2500, 120000))],
    rule="random LLVM functions with all terminator kinds; every instruction's neighbours compared with LLVM's CFG; distinct by module shape",
    technique="runtime oracle: CFG answers compared with LLVM's own block structure on random modules, under ASan/UBSan",
    note="Exact on every generated function; special member names are generated from the Itanium mangling of class members and declarations.",
    need={"edges": 500000, "modules_with_debug_intrinsics": 500, "special_member_names": 10000, "static_guards": 2000}, min_distinct=500)
PROPS["P13"] = P(
    "Call graphs contain every call that can happen, and are consistent",
    "Every call edge and function that any execution from the entry points can take is in the CHA, RTA, DTA and OTF call graphs (for RTA and DTA: virtual calls on completely constructed objects), for direct, "
    "function-pointer and virtual calls (single inheritance, non-template classes); direct calls have exactly their callee, CHA gives a virtual call exactly the overriders in the subtypes, other resolvers no more; NORESOLVE adds "
    "no indirect callee. Callers and callees are inverse, without duplicates, and present exactly for functions reachable in the graph; the backward ICFG agrees; all ways of building a graph agree.",
    ["programs", "paths"],
    "all programs with function pointers in locals, globals, structs, tables and heap, aliases, and class hierarchies with virtual methods; all their executions",
    "Unit tests check a few call sites in fixed programs; a missed callee makes every client analysis unsound and depends on how pointers and objects happen to flow.",
    ["lib/" + CF + "LLVMBasedCallGraphBuilder.cpp", "lib/" + CF + "LLVMBasedICFG.cpp", "lib/" + CF + "Resolver/OTFResolver.cpp", "lib/" + CF + "Resolver/CHAResolver.cpp", "lib/" + CF + "Resolver/RTAResolver.cpp",
     "lib/" + CF + "Resolver/DTAResolver.cpp", "lib/" + CF + "Resolver/Resolver.cpp", "lib/" + CF + "LLVMVFTableProvider.cpp", "include/phasar/ControlFlow/CallGraph.h"],
    [("worklist construction and fixpoint", "lib/" + CF + "LLVMBasedCallGraphBuilder.cpp"), ("resolvers", "lib/" + CF + "Resolver/Resolver.cpp"), ("caller/callee tables", "include/phasar/ControlFlow/CallGraph.h")],
    parts=[dict(harness="p13", cases=(3000, 60000)), dict(harness="p13v", name="virtual", cases=(900, 20000))],
    rule="random LLVM programs with function pointers, and random C++ class hierarchies compiled by clang; every program is executed 27-30 times along random paths; distinct by resolved callee counts",
    technique="runtime monitor: call edges taken in concrete executions of the analysed program must be in the real call graphs; consistency oracles, under ASan/UBSan",
    note="Executions: random paths up to 700 (6000) steps. Multiple inheritance and template classes are recorded findings (F04, F05).",
    need={"dynamic_calls_observed": 20000, "virtual_sites": 5000, "other_construction": 1000}, min_distinct=500)
PT = "PhasarLLVM/Pointer/"
PROPS["P14"] = P(
    "Call graphs and alias sets survive the round trip through JSON",
    "A call graph or alias-set result written as JSON and read back - for the same module or for a freshly loaded copy of it - answers every query exactly as the original: callees, callers, "
    "call sites, reachable functions, alias relations, alias sets and allocation sites of instructions, arguments, globals and functions, analysed functions; entries that do not exist in the module "
    "are skipped, empty results can be read back, and a call graph built on reloaded alias information still contains the original's callees.",
    ["programs", "histories"],
    "all programs, call graphs and alias results, all histories of queries before the result is written",
    "Unit tests round-trip a few fixed programs; losses depend on the kinds of values (functions, globals, arguments with unusual names) that occur in a result.",
    ["include/phasar/ControlFlow/CallGraph.h", "lib/ControlFlow/CallGraphData.cpp", "lib/" + PT + "LLVMAliasSet.cpp", "lib/" + PT + "LLVMAliasSetData.cpp", "lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp", "lib/" + CF + "LLVMBasedICFG.cpp"],
    [("call graph deserialisation", "include/phasar/ControlFlow/CallGraph.h"), ("alias set JSON", "lib/" + PT + "LLVMAliasSet.cpp"), ("metadata ids", "lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp")],
    parts=[dict(harness="p14", cases=(3000, 60000))],
    rule="random LLVM programs; call graphs of all resolvers and alias sets are written, read back for the same and for fresh copies of the module, and all queries compared",
    technique="metamorphic runtime oracle: answers before and after the JSON round trip, under ASan/UBSan",
    note="All pointers of the result are compared exactly, constant expressions by their uses.",
    need={"call_edges": 15000, "fresh_copies": 1000, "otf_on_loaded": 800, "pointers_with_aliases": 50000, "constant_expressions": 500}, min_distinct=500)
PROPS["P15"] = P(
    "Type hierarchies and vtables reproduce the classes of the program",
    "For classes at namespace scope (single, multiple and virtual inheritance, typedef-named bases, equal names in different namespaces), the LLVM-based and the debug-info-based type hierarchies contain exactly the "
    "program's class types; the subtype relation is exactly the reflexive-transitive closure of inheritance, however it is queried; each vtable lists exactly the class's virtual functions, in slot order; "
    "unknown types have no subtypes; and hierarchies and vtables read back from their JSON form answer all of this alike.",
    ["programs"],
    "all C++ class hierarchies of non-template, non-local classes, with and without debug information",
    "Unit tests check small fixed hierarchies; call-graph soundness depends on every subtype and vtable slot of arbitrary hierarchies.",
    ["lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp", "lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp", "lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp", "lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.cpp",
     "lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchyData.cpp", "lib/PhasarLLVM/TypeHierarchy/LLVMVFTableData.cpp", "lib/" + CF + "LLVMVFTableProvider.cpp"],
    [("hierarchy from type information", "lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp"), ("hierarchy from debug information", "lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp"),
     ("vtable entries", "lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp")],
    parts=[dict(harness="p15", cases=(2400, 40000))],
    rule="random C++ class hierarchies compiled by clang; subtype relation and vtable slots compared with the generated classes and the Itanium layout; distinct by source",
    technique="runtime oracle: hierarchies of compiled programs compared with the generated classes, under ASan/UBSan",
    note="Classes whose type information is not in the module are expected unknown; slot layout is predicted for single inheritance and read from the IR otherwise.",
    need={"subtype_pairs": 10000, "vtable_entries": 10000, "di_subtype_pairs": 5000, "di_vtable_entries": 5000, "complex_vtables": 300, "round_trips": 1000}, min_distinct=500)
PROPS["P16"] = P(
    "Alias sets are a sound and consistent may-alias relation",
    "The alias relation is an equivalence; alias(), getAliasSet(), isInReachableAllocationSites() and the allocation-site sets describe the same relation, whatever order they are asked in and whether computed lazily or eagerly; "
    "it contains every pair LLVM's pairwise alias analysis of the chosen kind cannot separate inside a function and every pair of pointers that hold the same address in some execution within a function, and every "
    "allocation site a pointer can hold; introduceAlias and mergeWith yield the closure of the relations involved; handles and copies see the same sets.",
    ["programs", "histories", "paths"],
    "all programs, query orders, histories of introduceAlias/mergeWith, and executions",
    "Unit tests query a few pairs in fixed programs and orders; lazily computed sets make the answer depend on the history of queries unless everything is merged correctly.",
    ["lib/" + PT + "LLVMAliasSet.cpp", "lib/" + PT + "LLVMBasedAliasAnalysis.cpp", "include/phasar/Pointer/AliasSetOwner.h", "lib/" + PT + "LLVMAliasInfo.cpp"],
    [("alias set construction and merging", "lib/" + PT + "LLVMAliasSet.cpp"), ("set ownership", "include/phasar/Pointer/AliasSetOwner.h"), ("pairwise analysis", "lib/" + PT + "LLVMBasedAliasAnalysis.cpp")],
    parts=[dict(harness="p16", cases=(560, 12000))],
    rule="random LLVM programs; alias sets queried in many orders, compared with LLVM's pairwise answers and with the addresses observed in random executions",
    technique="runtime monitor: addresses observed in concrete executions of the analysed program must be admitted by the real alias sets; consistency oracles, under ASan/UBSan",
    note="Executions are random paths; the equivalence, order-independence and pairwise oracles are exhaustive per program.",
    need={"same_address_pairs": 1000, "pairs": 100000, "lazy_orders": 400, "allocation_sites_observed": 10000, "executions": 3000}, min_distinct=200)
PROPS["P17"] = P(
    "The IR database numbers every instruction uniquely and stably",
    "However a module is loaded (.ll, .bc, buffer, borrowed or owned module), the IR database knows exactly its functions, globals and instructions; ids map to instructions and back one to one and are the same for every way and repetition "
    "of loading; metadata ids name instructions, globals, functions and arguments uniquely and resolve back; re-emitted preprocessed IR keeps all ids; inserting functions extends the numbering consistently; invalid files yield an invalid database.",
    ["programs", "inputs"],
    "all modules and all ways of loading, emitting and extending them",
    "Unit tests look at a few ids of fixed programs; every serialised result depends on ids being stable for all value kinds and names.",
    ["lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp", "include/phasar/PhasarLLVM/DB/LLVMProjectIRDB.h", "lib/PhasarLLVM/Utils/LLVMShorthands.cpp", "lib/PhasarLLVM/Passes/ValueAnnotationPass.cpp"],
    [("id tables", "lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp"), ("metadata ids", "lib/PhasarLLVM/Utils/LLVMShorthands.cpp")],
    parts=[dict(harness="p17", cases=(1100, 20000))],
    rule="random LLVM modules with unusual names, loaded in all ways; all ids compared",
    technique="metamorphic runtime oracle over ways of loading a module, under ASan/UBSan",
    note="Exact over all instructions, arguments and globals of each generated module.",
    need={"instructions": 100000, "insertions": 500}, min_distinct=300)
PROPS["P30"] = P(
    "The model of the C runtime runs constructors and destructors as programs do",
    "With globals included, the entry function the call graph is built from is valid IR that, when executed, performs exactly the observable sequence of the compiled program: global constructors by priority and order, the entry "
    "points (main with argc/argv, or a selection of parameterless functions), then registered and prioritised destructors in reverse order; every generated function is recognised as such, has ids and a place in the call graph; "
    "building the model again for the same or other entry points neither duplicates nor damages anything.",
    ["programs", "histories"],
    "all C++ programs with global objects, arrays, references, constructor/destructor attributes and priorities, registrations by hand, in one or two linked translation units",
    "Unit tests check the presence of a few calls in fixed programs; the order depends on priorities, registration and linking.",
    ["lib/" + CF + "GlobalCtorsDtorsModel.cpp", "include/phasar/" + CF + "GlobalCtorsDtorsModel.h", "lib/" + CF + "EntryFunctionUtils.cpp", "lib/" + CF + "LLVMBasedICFG.cpp", "lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp"],
    [("model construction", "lib/" + CF + "GlobalCtorsDtorsModel.cpp"), ("entry points", "lib/" + CF + "EntryFunctionUtils.cpp"), ("ICFG with globals", "lib/" + CF + "LLVMBasedICFG.cpp")],
    parts=[dict(harness="p30", cases=(480, 8000))],
    rule="random C++ programs compiled by clang, run natively and run through phasar's model; the event sequences compared; distinct by source",
    technique="differential runtime oracle: event trace of the native program against that of phasar's generated entry function, under ASan/UBSan",
    note="Not covered: destructors registered through atexit(), entry points with parameters other than main(argc, argv) (documented as unsupported), static locals never initialised in the run.",
    need={"traces": 800, "through_icfg": 150, "two_units": 80, "library_entries": 200, "feature_init_priority": 50, "feature_destructor": 50}, min_distinct=200)
PR = "lib/PhasarLLVM/DataFlow/IfdsIde/"
PROPS["P08"] = P(
    "The taint analysis reports every leak an execution can show",
    "For programs that move data by explicit copies (loads, stores, casts, struct fields, globals, parameters by value and by reference, returns including struct returns, calls through several levels and loops/recursion), "
    "IFDSTaintAnalysis reports every flow of a value from a configured source (return value or parameter) to a configured sink argument that occurs in some execution and is not sanitized on the way, and holds the corresponding fact "
    "at every instruction that uses a tainted value; for programs without references and globals it reports exactly the leaks of executions along feasible paths of the graph; configurations given as data, by callbacks, or as single values agree.",
    ["programs", "paths"],
    "all such programs, all their executions, all taint configurations naming sources, sinks and sanitizers of local variables",
    "Unit tests check the leaks of some tens of fixed programs; soundness depends on every flow function at every kind of call, parameter and store.",
    [PR + "Problems/IFDSTaintAnalysis.cpp", "lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp", "lib/PhasarLLVM/TaintConfig/TaintConfigBase.cpp", "include/phasar/PhasarLLVM/TaintConfig/TaintConfigBase.h"],
    [("flow functions of the taint analysis", PR + "Problems/IFDSTaintAnalysis.cpp"), ("taint configuration", "lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp")],
    parts=[dict(harness="p08", cases=(4000, 120000))],
    rule="random copy programs with sources, sinks and sanitizers, executed on all or many paths with shadow taint; every leak and fact observed compared with the analysis; distinct by observed leaks",
    technique="runtime monitor: shadow-taint executions of the analysed program as oracle for the real analysis, under ASan/UBSan",
    note="Not covered: llvm.mem* intrinsics, implicit flows, sanitizers applied to globals. Exactness is claimed only where all paths were executed.",
    need={"leaks_observed": 1000, "leaks_exact": 150, "facts_observed": 5000, "programs_with_all_paths": 1500, "calls_with_two_targets": 300, "programs_with_library_bodies": 800}, min_distinct=400)
PROPS["P09"] = P(
    "The uninitialized-variables analysis reports every uninitialised read",
    "IFDSUninitializedVariables reports every load, arithmetic, comparison, selection or branch that uses an uninitialised scalar in some execution (uninitialised locals, undef literals, values copied from them through variables, globals, "
    "by-reference parameters, arguments, phis and return values, through direct, indirect and exception-throwing calls), and its facts include every uninitialised value used; for programs of plain functions and by-value data it reports nothing "
    "that is not uninitialised in some execution.",
    ["programs", "paths"],
    "all such programs and all their executions",
    "Unit tests check fixed programs with a handful of reads; a flow function that loses a fact only shows for the right combination of call kind, parameter and store.",
    [PR + "Problems/IFDSUninitializedVariables.cpp"],
    [("flow functions", PR + "Problems/IFDSUninitializedVariables.cpp")],
    parts=[dict(harness="p09", cases=(2000, 60000))],
    rule="random programs executed on all or many paths with definedness shadows; every uninitialised use observed compared with the reported ones, exactly where all paths were executed; distinct by uses",
    technique="runtime monitor: definedness-shadow executions of the analysed program as oracle for the real analysis, under ASan/UBSan",
    note="Struct-typed locals are outside (the analysis does not track them by design), as is memory initialised by library calls.",
    need={"uses_observed": 5000, "uses_exact": 1000, "facts_observed": 6000, "programs_with_all_paths": 900}, min_distinct=500)

PROPS["P10"] = P(
    "Type-state analysis reports the state every handle really has",
    "IDETypeStateAnalysis with the C file-I/O description: wherever some execution has a file handle in a state of the automaton (unopened, open, closed, error after a misuse), the analysis has a fact for the variable that holds it, and its value is that state "
    "or unknown (BOT); for programs without loops and calls the value is exactly the join of the states over all executions, and for programs that consist of a single path it is exactly the state, also after calls of functions that use the handle. This holds through wrappers, by-value handle parameters, recursion, branches and exception-throwing calls.",
    ["programs", "paths"],
    "all such programs and all their executions",
    "Unit tests check a dozen programs at the exit of main; a transition or a flow lost at one kind of call shows only for the right sequence of library calls and helpers.",
    [IDE + "Problems/IDETypeStateAnalysis.h", PR + "Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.cpp"],
    [("flow and edge functions", IDE + "Problems/IDETypeStateAnalysis.h"), ("automaton", PR + "Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.cpp")],
    parts=[dict(harness="p10", cases=(2000, 60000))],
    rule="random handle-using programs executed on all or many paths with a state per handle; every observed state compared with the reported one; distinct by states and places",
    technique="runtime monitor: automaton run along executions of the analysed program as oracle for the real analysis, under ASan/UBSan",
    note="One handle variable per function; several aliased handle variables, and reassigned handle parameters, are outside (see DESIGN.md).",
    need={"states_observed": 10000, "exact_states": 500, "exact_straight_line_states": 300, "handles_at_later_parameters": 30, "paths": 5000}, min_distinct=300)

PROPS["P11"] = P(
    "Intraprocedural monotone solver computes the fixpoint; its constants are sound",
    "For every monotone framework problem and function, IntraMonoSolver's result at each instruction is the least fixpoint of the problem's transfer and merge functions over the control-flow graph (may and must problems, any container); "
    "IntraMonoFullConstantPropagation never reports a constant that an execution contradicts, and knows literals in straight-line code.",
    ["programs", "problems", "paths"],
    "all problems, functions and executions",
    "Unit tests run a few fixed problems; a lost re-queueing or a wrong merge shows only for particular graph shapes and transfer functions.",
    ["include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h", "lib/PhasarLLVM/DataFlow/Mono/Problems/IntraMonoFullConstantPropagation.cpp"],
    [("worklist", "include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h"), ("constant propagation", "lib/PhasarLLVM/DataFlow/Mono/Problems/IntraMonoFullConstantPropagation.cpp")],
    parts=[dict(harness="p11", cases=(1500, 60000))],
    rule="random monotone problems on random functions solved by the real solver and by a naive fixpoint, every instruction compared; constants compared with executions; distinct by results",
    technique="runtime monitor: naive-fixpoint reference and concrete executions as oracles for the real solver, under ASan/UBSan",
    note="Functions with static-initialisation guards are outside (the forward and backward graphs deliberately differ there). InterMonoSolver is not claimed (see DESIGN.md).",
    need={"statements_compared": 20000, "merges": 1000, "constants_checked": 1000, "literals_expected": 60}, min_distinct=300)

UT = "PhasarLLVM/Utils/"
PROPS["P22"] = P(
    "Reported source positions are the true ones, and diagnostics point at them",
    "For every value of every module, the variable name, function, file, directory, line and column, and the text of the source line, are those of one position in its debug information "
    "(its variable's declaration, its own position, its definition) and never invented; values and functions without position or file, files that are missing or unreadable, "
    "lines beyond the end, any line endings and inlined code included. SourceCodeInfo combines exactly these answers, survives JSON, and is equivalent to the same position of the same file below "
    "another directory and to nothing else. Diagnostics name that file, line and column.",
    ["programs", "inputs"],
    "all modules with debug information and all source files",
    "Unit tests query a dozen values of small compiled programs whose sources exist and are well-formed.",
    ["lib/" + UT + "LLVMIRToSrc.cpp", "lib/" + UT + "LLVMSourceManager.cpp"],
    [("positions", "lib/" + UT + "LLVMIRToSrc.cpp"), ("diagnostics", "lib/" + UT + "LLVMSourceManager.cpp")],
    parts=[dict(harness="p22", cases=(4000, 100000))],
    rule="random modules with debug information and source files in a scratch directory; every answer for every value compared with what was generated; distinct by the positions",
    technique="runtime oracle: the generator's record of positions and file contents, under ASan/UBSan",
    note="For values described by dbg.value the position may be the value's own or that of the description.",
    need={"values": 50000, "positions": 30000, "source_lines": 10000, "diagnostics_with_position": 5000, "functions_without_file": 100, "partly_described_values": 1000, "equivalent_infos": 10000}, min_distinct=1000)

PROPS["P24"] = P(
    "The general statistics equal an independent count of the module",
    "For every module, every number of GeneralStatistics (functions, globals, instructions, call sites, predecessors, successors, operands, uses, maxima, averages, "
    "debug and memory intrinsics, inline assembly, ...), the allocated types, allocating instructions and return or resume instructions are those a direct count gives. "
    "The JSON form and the printed table show the same numbers. Running the analysis object again, on this or another module, or through the pass manager, gives the numbers of that module alone.",
    ["programs"],
    "all modules",
    "Unit tests check a few numbers of a few compiled programs.",
    ["lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp"],
    [("statistics", "lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp")],
    parts=[dict(harness="p24", cases=(6000, 150000))],
    rule="random modules with heap objects, constructors, intrinsics, inline assembly and globals; every number in all three forms compared with a recount; distinct by the numbers",
    technique="runtime oracle: independent recount of the module, under ASan/UBSan",
    note="Address-taken functions and the like are counted by their meaning in LLVM; only modules the generator builds are counted.",
    need={"numbers": 50000, "json_numbers": 10000, "table_numbers": 5000, "constructed_heap_objects": 50, "passed_to_variadic": 20}, min_distinct=1000)

PROPS["P25"] = P(
    "The Hexastore returns exactly the stored edges for every query",
    "After every sequence of insertions, a query for any combination of given and open subject, predicate and object returns exactly the stored triples that match, each once, "
    "whatever strings the names are (quotes, SQL keywords and column names, empty, non-ASCII). Inserting an edge again changes nothing, and a store in a file has the same content after it is reopened.",
    ["histories", "inputs"],
    "all sequences of insertions, queries and reopenings over all names",
    "Unit tests store a handful of triples with plain names and query each form once or twice.",
    ["lib/DB/Hexastore.cpp", "lib/DB/Queries.cpp"],
    [("store", "lib/DB/Hexastore.cpp")],
    parts=[dict(harness="p25", cases=(700, 20000))],
    rule="random sequences of insertions and queries in memory and in files, with plain and with hostile names; every answer compared with a set of triples; distinct by the operations",
    technique="runtime monitoring: every answer checked online against a reference set, under ASan/UBSan",
    note="Only single-threaded use and one open store per file.",
    need={"puts": 2000, "duplicate_puts": 200, "queries": 4000, "rows": 4000, "reopened": 20}, min_distinct=300)

TCF = "PhasarLLVM/TaintConfig/"
PROPS["P26"] = P(
    "Taint configurations designate exactly the values their text describes",
    "For every valid JSON configuration, exactly the designated values of the module are sources, sinks and sanitizers: parameters by index (or all), "
    "results at the calls of a function, local variables by name and line, and accesses of every named struct member; unknown functions and indices out of range are ignored. "
    "Annotations of locals, parameters, members and functions of any type designate exactly these. At every instruction the generated, leaking and sanitized values are those "
    "of the callee's designated parameters, designated values and the registered callbacks, and predicates, categories and seeds agree. "
    "Malformed configurations are rejected without a crash.",
    ["programs", "inputs"],
    "all configurations and annotated programs",
    "Unit tests load some twenty small configurations with one or two entries each; interactions of entries, types of annotated variables, inlined functions and odd calls are not sampled.",
    ["lib/" + TCF + "LLVMTaintConfig.cpp", "lib/" + TCF + "TaintConfigBase.cpp", "lib/PhasarLLVM/Utils/Annotation.cpp", "include/phasar/" + TCF + "TaintConfigBase.h", "config/TaintConfigSchema.json"],
    [("configuration from JSON data", "lib/" + TCF + "LLVMTaintConfig.cpp"), ("parsing and validation", "lib/" + TCF + "TaintConfigBase.cpp"), ("annotations", "lib/PhasarLLVM/Utils/Annotation.cpp")],
    parts=[dict(harness="p26", cases=(1200, 30000))],
    rule="random C and C++ programs compiled by clang with a random configuration or annotations; categories of every value and the queries at every instruction compared with what the generator wrote; distinct by configuration",
    technique="runtime oracle: the generator's own record of what it configured or annotated, under ASan/UBSan; damaged inputs as fault injection",
    note="Function names are unambiguous; struct members are matched by GEP names (-fno-discard-value-names) as the implementation documents; uses of a function other than calls may carry its return category.",
    need={"configured_members": 500, "configurations_with_several_members": 150, "annotated_locals": 300, "annotated_members": 100, "annotated_parameters": 100, "annotated_functions": 100,
          "values_at": 50000, "damaged_rejected": 1000, "functions_only_in_debug_info": 100, "calls_with_less_arguments": 200}, min_distinct=500)

_ANA = ["IFDSConst", "IFDSType", "IFDSSign", "IFDSProto", "IFDSSolverTest", "IFDSUninit", "IFDSTaint", "IDELinearConstant", "IDEProto", "IDESolverTest", "IDETypeStateFile",
        "IDETypeStateKDF", "IDETypeStateSecMem", "IDEInstInteraction", "IntraMonoFullConstant", "IntraMonoSolverTest", "IntraMonoUninit"]
PROPS["P31"] = P(
    "Every shipped analysis copes with every valid module, deterministically",
    "Each analysis shipped with phasar (17 IFDS, IDE and monotone problems), built from the helper analyses in any configuration (call-graph algorithm, alias analysis, global initialisation, entry points) and run on any valid LLVM module, "
    "terminates without memory errors, undefined behaviour or assertion failures; its text report and result dump can be produced; and a second run on a separately parsed copy of the module yields the same facts and values at every instruction.",
    ["modules", "configurations"],
    "all valid LLVM modules and helper-analysis configurations",
    "Unit tests run each analysis on compiled C/C++ snippets only; a null dereference, an unchecked cast or an address-dependent order needs an instruction or call shape that those do not contain.",
    [PR + "Problems", "lib/PhasarLLVM/Utils/LLVMShorthands.cpp", "lib/PhasarLLVM/HelperAnalyses.cpp", "include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h"],
    [("analyses", PR + "Problems"), ("printing of facts", "lib/PhasarLLVM/Utils/LLVMShorthands.cpp"), ("helper analyses", "lib/PhasarLLVM/HelperAnalyses.cpp")],
    parts=[dict(harness="p31", cases=(640, 30000))],
    rule="random modules (all instruction kinds the flow functions look at) and random configurations; six random analyses per case on two copies of the module; distinct by results",
    technique="runtime monitor: sanitizers and assertions over the real analyses on random modules, and a result-equality monitor between two runs in different heaps",
    note="IDEExtendedTaintAnalysis runs on acyclic programs only and is not compared; IDEGeneralizedLCA and IDESecureHeapPropagation are outside (see DESIGN.md).",
    need=dict([("analyses_compared", 1800), ("results", 500000)] + [("ran_" + a, 100) for a in _ANA]), min_distinct=300)
