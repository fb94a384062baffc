#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property list)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   observe_at=list(observe),hook_needed=hook)))
PY="libpyclingo/clingo/"
p("C01","Multi-shot solving reports exactly the stable models of the history",
  "After any sequence of adding and grounding parametrised program parts, adding rules through the backend, assigning and releasing externals (by symbol or by literal), cleanup and solving under assumptions (symbolic or literal, true or false), each solve call that enumerates everything reports exactly the stable models of everything grounded so far under the current external values and those assumptions, each once. Its result is satisfiable iff there is such a model and says exhausted. This holds identically from Python, C++ and Lua.",
  ["histories","programs"],"every history of control operations over every ground program",
  "The tests replay a few fixed histories on fixed programs; the statement ranges over all interleavings of ground/assign/release/backend/assume/solve.",
  [PY+"control.py",PY+"backend.py","libclingo/clingo.hh","libluaclingo/luaclingo.cc"],
  [("marshalling of parts, parameters, assumptions and externals to the engine",PY+"control.py"),("the same in C++","libclingo/clingo.hh"),("the same in Lua","libluaclingo/luaclingo.cc")],
  [("accumulated ground program","rules of all grounded parts and backend statements","control object"),("external valuation","true/false/free/released per external atom","control object")],
  ["solve result and models of every solve call"])
p("C02","What a model object says agrees with the answer set it stands for",
  "For every reported model, membership, literal truth, the symbol lists for every combination of atoms/terms/shown/theory/complement, the model number, the type and the thread id describe one and the same answer set as filtered by the program's show statements. Symbols added to a model by extending it appear in its theory symbols and nowhere in the answer set.",
  ["programs","inputs","histories"],"every model of every program and every combination of selectors",
  "Tests look at two or three selector combinations on one program each; the selectors form a 2^5 space over all programs.",
  [PY+"solving.py","libclingo/clingo.hh","libluaclingo/luaclingo.cc"],
  [("selector flags and symbol buffers",PY+"solving.py"),("Model accessors","libclingo/clingo.hh"),("Model accessors","libluaclingo/luaclingo.cc")],
  observe=["model accessors inside callbacks and iteration"])
p("C03","Optimisation and reasoning modes report the specified optima and consequences",
  "With minimisation, each model's cost vector lists, by descending priority, the weight sums of that model, costs strictly improve during search, and the final model is optimal and flagged as proven exactly when it is. Brave and cautious modes end with the union and intersection of the stable models, and projection reports each projection of a stable model exactly once.",
  ["programs","configurations","histories"],"every program with minimize/project statements and every enumeration mode, also over several solve calls",
  "Tests check one or two fixed optima; costs with several priorities, negative weights and mode changes between calls are not covered.",
  [PY+"solving.py",PY+"backend.py",PY+"configuration.py","libclingo/clingo.hh","libluaclingo/luaclingo.cc"],
  [("cost, optimality and type accessors",PY+"solving.py"),("minimize/project through backend",PY+"backend.py")],
  observe=["model cost/optimality/type","solve results"])
p("C04","Clauses added while enumerating constrain the rest of that search, and only it",
  "A clause or nogood added from a model (over literals or symbolic literals, including unknown atoms) excludes exactly the later models of that solve call that violate it, never excludes others, and, with the enumeration assumption enabled, leaves later solve calls unaffected.",
  ["histories","programs"],"every sequence of clause additions during every enumeration",
  "Tests add one clause in one place; the property ranges over all clauses (signs, unknown atoms, mixed kinds) at all points of the enumeration.",
  [PY+"solving.py","libclingo/clingo.hh","libluaclingo/luaclingo.cc"],
  [("literal translation of symbolic clauses",PY+"solving.py"),("SolveControl::add_clause","libclingo/clingo.hh"),("SolveControl","libluaclingo/luaclingo.cc")],
  observe=["models after each clause"])
p("C05","Solve handles follow the start/resume/model/get/cancel/close protocol",
  "Whatever order of iterating, resuming, waiting, asking for the model, result, last model or core, cancelling and leaving the handle a program uses, in synchronous, yielding and asynchronous mode, models are delivered in engine order, each once, until none is reported as the end; the result equals the engine's; and leaving the handle ends that search exactly once, also when leaving through an error. Event callbacks (model, unsat bound, statistics, finish) fire in engine order with the engine's data, and a model callback asking to stop ends the search there.",
  ["histories","schedules"],"every sequence of handle operations, mode combination and engine schedule",
  "Tests use the straight-line loop in each mode; early exit, repeated calls, cancel after exhaustion and callback/handle interleavings are not covered.",
  [PY+"solving.py",PY+"control.py","libclingo/clingo.hh","libluaclingo/luaclingo.cc"],
  [("SolveHandle and event callback",PY+"solving.py"),("SolveHandle, ModelIterator","libclingo/clingo.hh"),("SolveHandle","libluaclingo/luaclingo.cc")],
  [("handle state","solving / model ready / finished / closed","engine handle")],["handle operations and callbacks"])
p("C06","Failures surface exactly once, in kind, at the call that caused them",
  "An error reported by the engine at any call is raised to the caller at that call with the engine's message (memory errors as memory errors), never swallowed and never reported by a later unrelated call. An exception raised inside a user callback (ground function, model handler, propagator, observer, parser callback, embedded script, transformer) stops that operation and is re-raised to whoever started it with its original type and message (in Lua, as an error containing the message; in asynchronous Python solving, a runtime error with the message is accepted); it is raised there once and does not affect later operations.",
  ["fault_sequences","histories"],"every failing engine call and every callback that raises, at any point of any history",
  "Tests raise one exception type from a few callbacks; no test makes engine calls fail, and exceptions with unusual constructors are not tried.",
  [PY+"_internal.py",PY+"control.py",PY+"propagator.py",PY+"backend.py","libclingo/clingo.hh","libluaclingo/luaclingo.cc"],
  [("error slot and callback error handler",PY+"_internal.py"),("AssignOnce / handle_error","libclingo/clingo.hh"),("handle_c_error / error propagation","libluaclingo/luaclingo.cc")],
  [("pending error","at most one error waiting to be re-raised","control/handle")],["exception at the API call"])
p("C07","Propagators see a consistent trail: changes, undo and check nest properly",
  "For every search and thread, each propagate call lists only watched literals that became true, each once per time it becomes true; undo is called in last-in-first-out order for exactly the decision levels with undoable propagation and lists the changes made there; checks happen on total (or fixpoint) assignments as requested, and thread ids are in range. A propagator may implement any subset of the methods. The assignment and trail views (size, value, level, decision, trail segments, fixedness, iteration, slicing) always describe one consistent partial assignment.",
  ["schedules","programs","histories"],"every program, watch set, check mode, thread count and search schedule",
  "Tests assert on final models or a few levels of one search; no test checks the whole call sequence of arbitrary searches.",
  [PY+"propagator.py","libclingo/clingo.hh","libluaclingo/luaclingo.cc"],
  [("callback trampolines",PY+"propagator.py"),("g_propagator","libclingo/clingo.hh"),("propagator trampolines","libluaclingo/luaclingo.cc")],
  [("partial assignment","trail split by decision level","engine")],["propagator callbacks"])
p("C08","Constraints added by propagators shape the solution set as specified",
  "Clauses and nogoods (any mix of tag and lock), weight constraints (all comparison directions and equality), minimize terms, fresh literals and watches added by a propagator during initialisation or search restrict the reported models to exactly those satisfying them; volatile ones hold for the current solve call only. A false return means the propagator has to stop, and the search then continues correctly.",
  ["programs","histories","inputs"],"every program and every set of constraints added at every callback",
  "Tests add single hand-picked constraints; weights, signs, types and multi-shot combinations are not covered.",
  [PY+"propagator.py","libclingo/clingo.hh","libluaclingo/luaclingo.cc"],
  [("add_clause/add_nogood/add_weight_constraint/add_minimize marshalling",PY+"propagator.py"),("PropagateInit/PropagateControl","libclingo/clingo.hh"),("PropagateInit/PropagateControl","libluaclingo/luaclingo.cc")],
  observe=["models of the constrained program"])
p("C09","Symbols form one totally ordered, hash-consistent, printable value domain",
  "For all symbols built from numbers, strings (with any escapes), infimum, supremum and nested, signed functions and tuples, the accessors return what the symbol was built from; equality is structural; ordering is the total order infimum < numbers < ... < supremum consistent with equality and all comparison operators; hashes agree on equal symbols; and parsing a symbol's text yields an equal symbol. Python, C++ and Lua agree.",
  ["inputs"],"all symbols and all pairs/triples of symbols",
  "Tests compare about a dozen symbols; the axioms quantify over all pairs and triples and over all string contents.",
  [PY+"symbol.py","libclingo/clingo.hh","libluaclingo/luaclingo.cc"],
  [("Symbol wrapper",PY+"symbol.py"),("Symbol/Signature","libclingo/clingo.hh"),("Term userdata","libluaclingo/luaclingo.cc")],
  observe=["symbol operations"])
p("C10","Backend statements reach observers and the solver unaltered and in order",
  "Everything stated through a backend (rules, weight rules, minimize, project, externals, assumptions, heuristics, edges, atoms, theory terms/elements/atoms) or by grounding is reported to each registered observer once, in order, with the same content, between the matching step begin/end notifications, and only to the handlers an observer overrides. Feeding an observed program into a fresh control yields the same answer sets.",
  ["programs","histories"],"every sequence of backend statements and grounding steps",
  "Tests record one or two statements of each kind; sequences, negative values, empty bodies and partial observers are not covered.",
  [PY+"backend.py",PY+"control.py","libclingo/clingo.hh","libluaclingo/luaclingo.cc"],
  [("backend marshalling and observer trampolines",PY+"backend.py"),("Backend, GroundProgramObserver","libclingo/clingo.hh"),("Backend, observer","libluaclingo/luaclingo.cc")],
  observe=["observer callbacks"])
p("C11","Symbolic-atom views match the ground program",
  "At any point of any history the symbolic atoms contain exactly the atoms grounded so far that are not cleaned up, iteration (overall and by signature, either sign) visits each exactly once, lookup, membership, size and signatures agree with iteration, and fact and external flags and literals are those of the current program.",
  ["histories","programs"],"every history of ground/external/cleanup operations",
  "Tests inspect one fixed program once; flags change along a history and by-signature iteration has many boundary cases.",
  [PY+"symbolic_atoms.py","libclingo/clingo.hh","libluaclingo/luaclingo.cc"],
  [("SymbolicAtoms",PY+"symbolic_atoms.py"),("SymbolicAtoms","libclingo/clingo.hh"),("SymbolicAtoms","libluaclingo/luaclingo.cc")],
  observe=["symbolic atom inspection"])
p("C12","Theory data read back is the theory data stated",
  "Every theory atom stated in a program or through the backend can be read back with the same term, elements, tuples, conditions, guard and nested term structure (numbers, symbols, functions, tuples, lists, sets), the same printed form, and a literal that is true in exactly the models where the atom holds.",
  ["programs","inputs"],"all theory atoms, elements and nested theory terms",
  "Tests read one theory atom; nesting, empty sequences, guards and conditions vary freely.",
  [PY+"theory_atoms.py",PY+"backend.py","libclingo/clingo.hh","libluaclingo/luaclingo.cc"],
  [("TheoryAtom/Element/Term",PY+"theory_atoms.py"),("TheoryAtoms","libclingo/clingo.hh"),("theory userdata","libluaclingo/luaclingo.cc")],
  observe=["theory atom inspection"])
p("C13","Syntax-tree attributes and sequences behave like values in a shared mutable tree",
  "A syntax-tree node's attributes hold what was last stored; its child and string sequences behave like lists under every sequence of get/set/insert/delete/append/extend/pop/reverse/clear and index forms (including negative and out-of-range indices), with every live view of the same attribute seeing the change. Shallow copies share children and not attributes, deep copies share nothing, and equality/order/hash depend only on content (not on locations).",
  ["histories","inputs"],"every sequence of mutations over nodes, views and copies",
  "Tests apply a few operations to one sequence; aliasing, index boundaries and copy isolation over histories are not covered.",
  [PY+"ast.py",PY+"util.py","libclingo/clingo.hh"],
  [("AST, ASTSequence, StrSequence",PY+"ast.py"),("Node, NodeVector, StringVector","libclingo/clingo.hh")],
  [("tree","nodes with attributes and child sequences","engine")],["attribute reads after each operation"])
p("C14","Transforming a syntax tree changes exactly what the transformer changed",
  "Visiting a syntax tree with a transformer visits every child reachable from nodes the transformer does not handle itself, in order, returns the very same tree if nothing was replaced, and otherwise a new tree that differs from the original exactly at the replaced positions, while the original is left untouched.",
  ["inputs","programs"],"every tree and every replacement set",
  "Tests rename variables in one statement; identity preservation and non-mutation hold for arbitrary trees and replacements.",
  [PY+"ast.py","libclingo/clingo.hh"],
  [("Transformer",PY+"ast.py"),("transform_ast/visit_ast","libclingo/clingo.hh")],
  observe=["result and original tree"])
p("C15","Parsing, printing, constructing and re-adding syntax trees is lossless",
  "Every statement parses into trees whose constructors rebuild an equal tree from its attributes (each attribute in its place, optional ones absent or present), whose text parses back to an equal tree, and which, added through a program builder, yield the same answer sets as the text; attribute names, child names and item lists agree with the node type.",
  ["programs","inputs"],"all statements of the input language",
  "Tests cover a fixed list of statements and mostly compare strings; attribute placement and semantics after re-adding are not covered.",
  [PY+"ast.py","libclingo/clingo.hh"],
  [("constructors and attribute access",PY+"ast.py"),("Node construction","libclingo/clingo.hh")],
  observe=["trees, strings, answer sets"])
p("C16","The configuration tree reads back what was written, and only that",
  "Navigating the configuration by map key or array index reaches the same entry by every route; a value written is the value read back (and is used by the next solve), other entries are unchanged, out-of-range indices and unknown keys are rejected, and key lists, sizes, kinds and descriptions agree with what can be reached.",
  ["configurations","histories"],"every sequence of reads and writes over the configuration tree",
  "Tests set and read two options; interaction of writes, array entries and boundary indices is not covered.",
  [PY+"configuration.py","libclingo/clingo.hh","libluaclingo/luaclingo.cc"],
  [("Configuration",PY+"configuration.py"),("Configuration","libclingo/clingo.hh"),("Configuration","libluaclingo/luaclingo.cc")],
  observe=["configuration reads"])
p("C17","User statistics are stored, merged and reported as written",
  "Nested maps, arrays and numbers written to the step or accumulated statistics (by assignment, update, append, extension, or functions of the old value) are read back as exactly that tree, both through the live view and in the statistics after the search, existing entries are updated in place and others kept, and malformed accesses are rejected.",
  ["histories","inputs"],"every sequence of writes to statistics trees across solve calls",
  "Tests write one small tree once; update/append/callable combinations and multi-call accumulation are not covered.",
  [PY+"statistics.py",PY+"control.py","libclingo/clingo.hh","libluaclingo/luaclingo.cc"],
  [("StatisticsMap/StatisticsArray",PY+"statistics.py"),("UserStatistics","libclingo/clingo.hh"),("user statistics","libluaclingo/luaclingo.cc")],
  observe=["statistics reads"])
p("C18","Applications get their options, files, hooks and exit status in order",
  "For every command line, an application's options are registered before parsing, each occurrence of an option reaches its parser or flag with its value, a rejecting parser or validator stops the program with an error before main, main runs once with the control and exactly the given files, custom model printing replaces the default for every model, and name, version, message limit and logger are honoured.",
  ["configurations","inputs"],"every command line and every combination of overridden hooks",
  "One test runs one command line with most hooks set; rejection, repetition, grouping and partial overriding are not covered.",
  [PY+"application.py","libclingo/clingo.hh","app/clingo/main.cc"],
  [("clingo_main and application trampolines",PY+"application.py"),("Application","libclingo/clingo.hh"),("main","app/clingo/main.cc")],
  observe=["hook calls, output, exit code"])
p("C19","Functions called from programs get the arguments and return the symbols given",
  "An external function call in a program reaches the context object's function if a context is given, otherwise the embedded script or registered script language that defines it, with exactly the call's arguments; a single returned symbol or any sequence of symbols, including none, becomes exactly those values in the ground program. Scripts execute in program order, a script's main replaces the default procedure, and this holds for Python, Lua, C++ callbacks and user-registered script languages.",
  ["programs","inputs","histories"],"every call, argument list and return value, over several ground calls and contexts",
  "Tests call one function with one argument; return shapes, argument types, and context/script precedence are not covered.",
  [PY+"script.py",PY+"control.py","libclingo/clingo.hh","libluaclingo/luaclingo.cc","libpyclingo/pyclingo.c"],
  [("ground callback",PY+"control.py"),("script trampolines",PY+"script.py"),("ground callback","libclingo/clingo.hh"),("lua call","libluaclingo/luaclingo.cc")],
  observe=["ground program produced by calls"])
p("C20","Sequence views index, slice and iterate like the list they stand for",
  "Every read-only or mutable sequence view (model symbols, assignment, trail, syntax-tree children and strings) yields under every index, slice, slice of a slice, iteration, length, membership, reversal, and mutation through a slice exactly what a list with the same elements would, and slices follow later changes of length of the underlying sequence.",
  ["inputs","histories"],"all lengths, indices, (nested) slices and mutations",
  "Tests try a handful of slices of one length; start/stop/step combinations and nesting form a large space.",
  [PY+"util.py",PY+"solving.py",PY+"propagator.py",PY+"ast.py"],
  [("Slice, SlicedSequence, SlicedMutableSequence",PY+"util.py")],
  observe=["sequence operations"])
p("C21","Every engine object is released exactly once and never used afterwards",
  "Over any sequence of creating, copying, moving, swapping, assigning, leaving by error, and dropping controls, solve handles, backends, program builders and syntax-tree nodes, each engine object the program owns is closed or freed exactly once and after its last use, objects it does not own are never freed, and moved-from objects are inert.",
  ["histories","fault_sequences"],"every history of object operations, including failing ones",
  "Tests do not observe releases at all; double frees or leaks only show under particular move/error sequences.",
  ["libclingo/clingo.hh",PY+"control.py",PY+"ast.py",PY+"solving.py","libluaclingo/luaclingo.cc"],
  [("move/copy operations and destructors","libclingo/clingo.hh"),("__del__/__exit__",PY+"control.py"),("metatables' __gc","libluaclingo/luaclingo.cc")],
  [("live engine objects","reference counts and open handles","engine")],["engine create/free/close calls"])
p("C22","Messages reach the installed logger with their code, up to the limit",
  "Every warning or error message produced while parsing terms, parsing programs, adding, grounding or loading is delivered exactly once to the logger installed for that operation with its code and text, at most as many as the message limit (an operation's first error even beyond it), and to nobody else; without a logger the messages are printed on the error stream; an operation that reports an error fails.",
  ["inputs","configurations"],"every program with warnings/errors, every entry point, every limit",
  "Tests log one message through one entry point; limits, other entry points and codes are not covered.",
  [PY+"core.py",PY+"control.py",PY+"symbol.py",PY+"ast.py","libclingo/clingo.hh","libluaclingo/luaclingo.cc"],
  [("logger trampolines",PY+"core.py"),("g_logger","libclingo/clingo.hh"),("logger","libluaclingo/luaclingo.cc")],
  observe=["logger calls"])
p("C23","The theory adapter forwards every call and value of an external theory",
  "For any external theory library with the documented interface, registering, configuring, preparing, rewriting statements, option handling and model/statistics notifications reach the theory once with the given objects; symbol lookup, value tests and values (integers, doubles, symbols) and the assignment iteration return exactly what the theory holds for that thread; and the theory is destroyed exactly once.",
  ["histories","inputs"],"every theory state and call sequence",
  "No test exercises the adapter at all.",
  [PY+"theory.py"],[("Theory",PY+"theory.py")],observe=["theory library calls and returned values"])
p("C24","Requests reach the engine, and its answers the user, unchanged",
  "For every operation of the controls, backends, models, handles, propagation objects and builders the engine receives exactly the user's arguments (values, order, lengths, flags and defaults), and the user receives exactly the engine's answer, for every answer the interface allows, including consequences, priorities, last models, projection updates, minimize removal, backend registration and aspif loading.",
  ["inputs","histories"],"all operations, argument values and engine answers",
  "Tests run against one engine version whose answers are fixed, and it lacks nine of the functions; most argument and answer values never occur.",
  [PY+"control.py",PY+"solving.py",PY+"propagator.py",PY+"backend.py","libclingo/clingo.hh","libluaclingo/luaclingo.cc","libclingo/clingo.h"],
  [("argument marshalling",PY+"control.py"),("C++ wrappers","libclingo/clingo.hh"),("Lua wrappers","libluaclingo/luaclingo.cc")],
  observe=["engine call arguments and API return values"])
p("C25","Interrupts and concurrent control end a search cleanly from any point",
  "An interrupt or cancel issued at any moment of a search (before it starts, while running, from a callback, from another thread, or after it ended) ends that search (an interrupt while no search runs: the next one) with a result flagged interrupted unless it had already finished, never affects later searches, runs the finish notification exactly once after all model notifications, and leaves the control usable.",
  ["schedules","histories"],"every point and thread at which the interrupt can arrive",
  "Tests interrupt one running search once; the timing of the interrupt relative to models and completion is a schedule space.",
  [PY+"control.py",PY+"solving.py","libclingo/clingo.hh","libluaclingo/luaclingo.cc"],
  [("interrupt/cancel/wait",PY+"solving.py"),("interrupt/cancel/wait","libclingo/clingo.hh"),("interrupt/cancel","libluaclingo/luaclingo.cc")],
  observe=["solve result, event order"])
p("C26","Values an operation cannot represent are rejected, never changed",
  "Whenever an operation of the Python or Lua binding is given a number that the engine's type cannot hold (beyond 32 bits, negative where only natural numbers exist, fractional), a value of another type, or a sequence or pair containing one - as an argument or as the result of a callback (external function, decide) - it raises an error in the calling language without the engine acting on it, the process survives and all objects stay usable; every representable value up to the extremes is accepted as it is.",
  ["inputs","histories"],"every operation, argument position and unrepresentable value, between arbitrary other operations",
  "Tests pass valid arguments only; a silent truncation to 32 bits shows only with values no test uses.",
  ["libluaclingo/luaclingo.cc",PY+"_internal.py",PY+"backend.py",PY+"control.py",PY+"propagator.py",PY+"symbol.py"],
  [("luaToCpp, luaToVal, luaToInteger","libluaclingo/luaclingo.cc"),("cffi conversions",PY+"backend.py")],
  observe=["errors raised","engine call arguments"])
GR="libgringo/"
p("G01","Interval sets implement set union, difference and membership",
  "For every sequence of adding and removing intervals (open or closed ends, empty and overlapping ones included), membership, intersection tests, emptiness and enumeration of an interval set agree with the set of points the operations describe.",
  ["histories","inputs"],"every sequence of interval insertions and removals",
  "Unit tests apply a few fixed sequences; adjacency and open/closed combinations are many.",
  [GR+"gringo/intervals.hh"],[("IntervalSet",GR+"gringo/intervals.hh")],observe=["interval-set queries"])
p("G02","Dependency analysis orders components correctly",
  "For every directed graph the strongly connected components computed are exactly the maximal mutually reachable node sets, each node in one component, listed so that every component comes after the components it depends on; repeating the analysis gives the same answer.",
  ["inputs"],"every directed graph",
  "Unit tests use three small graphs.",
  [GR+"gringo/graph.hh","libreify/reify/util.hh"],[("Graph::tarjan",GR+"gringo/graph.hh")],observe=["component lists"])
p("G03","Grounding preserves the stable models of the program",
  "For every safe non-ground program, the ground program produced has exactly the stable models of the program's full instantiation over its Herbrand terms, shown atoms included, for recursion through positive and negative literals, arithmetic, intervals, pools, comparisons, conditional literals, choices, disjunctions, aggregates, optimisation, external, show and project statements, and over several incremental steps.",
  ["programs","histories"],"every safe program and incremental history",
  "Unit tests check about two hundred fixed programs and are not built here at all.",
  [GR+"src/ground/statements.cc",GR+"src/ground/instantiation.cc",GR+"src/input/program.cc",GR+"src/output/output.cc",GR+"gringo/domain.hh"],
  [("semi-naive instantiation",GR+"src/ground/instantiation.cc"),("aggregate translation",GR+"src/output/aggregates.cc")],observe=["ground program text/aspif"])
p("G04","Term evaluation follows integer arithmetic and the symbol order",
  "Every ground arithmetic term evaluates to the mathematically specified 32-bit integer (division and modulo conventions, powers, bitwise operators, absolute value), comparisons follow the total order of symbols, and undefined operations make exactly that instance disappear with a message, never a crash or a wrong value.",
  ["inputs"],"all ground terms and operand values",
  "Unit tests evaluate a few expressions; operand corner values are not covered.",
  [GR+"src/term.cc",GR+"src/symbol.cc",GR+"gringo/term.hh"],[("eval/simplify",GR+"src/term.cc")],observe=["ground atoms derived"])
p("G05","Safety: exactly the programs whose variables are all bound are accepted",
  "A statement is accepted iff every global variable is bound by a positive body literal (through invertible linear terms, assignments or intervals, in any order of literals) and every local variable by its local context; rejected statements are reported with all their unsafe variables.",
  ["programs"],"all statements",
  "Unit tests have a small list of safe/unsafe rules.",
  [GR+"gringo/safetycheck.hh",GR+"src/input/literals.cc",GR+"src/input/statement.cc"],[("SafetyChecker",GR+"gringo/safetycheck.hh")],observe=["acceptance and messages"])
p("G06","Reified programs describe the ground program exactly",
  "The facts produced by reification contain exactly one description of every rule, weight rule, minimize, show, external, assumption, heuristic, edge, project and theory statement of the input, with shared tuples numbered consistently, step arguments when asked for, and the strongly connected components of the positive dependency graph when asked for.",
  ["programs","configurations"],"every ground program, with and without steps and components",
  "Unit tests compare four fixed outputs and are not built here.",
  ["libreify/src/program.cc","libreify/reify/program.hh","libreify/reify/util.hh"],[("Reifier","libreify/src/program.cc")],observe=["reified facts"])
p("G07","Trees built by the repository's library mean the text they come from",
  "Every statement the parser accepts is built as the syntax tree its text stands for (nodes, attributes, locations), prints to text that is parsed into an equal tree, has equal deep copies with equal hashes and a total order, and unpools into trees without pools; a program that is added by way of its trees - as they are, printed and parsed again, copied, or unpooled - has the same stable models, costs and shown symbols and is rejected for the same unsafe variables as its text.",
  ["programs","histories"],"every program and every way through trees",
  "Unit tests compare some statements' texts and are not built here at all.",
  ["libclingo/src/astv2.cc","libclingo/src/astv2_build.cc","libclingo/src/astv2_parse.cc","libclingo/src/astv2_str.cc","libclingo/src/astv2_unpool.cc","libclingo/clingo/astv2.hh"],
  [("unpool","libclingo/src/astv2_unpool.cc"),("ASTBuilder","libclingo/src/astv2_build.cc"),("ASTParser","libclingo/src/astv2_parse.cc")],observe=["trees","texts","models","messages"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
