"""Writes /verif/properties.jsonl (kept as code so that the statements stay readable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
S = "src/andromede/"
OPT = S + "simulation/optimization.py"

prop("C01", "Every problem built in a session is what its current inputs prescribe",
 "In any session - any sequence of creating models, wiring networks, setting or replacing data, replicating, building, solving, exporting and failing builds, over shared or discarded objects - each completed build yields exactly the variables (bounds, type, time/scenario instances), constraints and objective that the modelling language prescribes for the models, network, data, time block, scenario count and problem options passed to that call. Nothing an earlier operation of the session did can show in it, and a build that the inputs do not allow is refused rather than completed.",
 ["histories", "programs", "inputs"],
 "All operation sequences over a pool of live and discarded models, networks and databases; all generated models in the linear modelling language (arithmetic, time shift/eval/window sum/all-time sum, expectation, ports and port sums); all blocks and scenario counts.",
 "Each existing test builds one fixed study once, in a fresh fixture. None builds twice with edited data in between, reuses models across networks, or compares a whole constraint matrix with an independent interpretation.",
 [OPT, S+"simulation/linearize.py", S+"expression/operators_expansion.py", S+"expression/port_resolver.py", S+"expression/context_adder.py", S+"expression/indexing.py", S+"study/data.py", S+"study/network.py"],
 [("problem construction from network and database", OPT+": build_problem, OptimizationProblem"),
  ("expression instantiation pipeline", "context_adder -> port_resolver -> operators_expansion -> linearize"),
  ("parameter lookup", S+"study/data.py: DataBase, AbstractDataStructure.get_value")],
 [("OptimizationContext", "per-build mapping of model objects to solver objects", OPT)],
 ["problem.solver variables/constraints/objective", "exported LP/MPS text"])

prop("C02", "Concurrent callers sharing studies get the same problems as when alone",
 "When several caller threads parse libraries, load systems, build problems or Benders decompositions, solve and read results at the same time - sharing libraries, models, networks and databases that none of them edits - each of them obtains exactly the result it would have obtained running alone, for every interleaving. The shared inputs come out unchanged and no caller fails because of another.",
 ["schedules", "programs"],
 "All interleavings (at source-line granularity) of 2-4 caller threads running library parsing, system resolution, building, solving, result reading over shared and look-alike inputs.",
 "All tests are single-threaded: no interleaving of two callers is ever executed.",
 [OPT, S+"simulation/linearize.py", S+"simulation/benders_decomposed.py", S+"expression/parsing/parse_expression.py", S+"model/resolve_library.py", S+"study/resolve_components.py", S+"simulation/output_values.py"],
 [("all per-build state lives in objects created by the call", OPT+": OptimizationContext"),
  ("immutable models and expression nodes (frozen dataclasses)", S+"expression/expression.py, "+S+"model/")],
 [], ["problem matrices", "parsed models", "OutputValues"])

prop("C03", "An operation aborted at any point leaves no trace",
 "If loading, resolving, building, exporting or reading results is aborted at any point by an asynchronous exception (user interrupt, out of memory), the models, network, database and decision tree passed to it are exactly as before, and running the same or any other operation afterwards in the same process gives exactly the result an undisturbed process would give. A user interrupt reaches the caller as itself, an out-of-memory condition as some exception: neither is swallowed.",
 ["crash_points", "histories"],
 "Every source line executed by any such operation as an abort point, every abort kind, every follow-up operation.",
 "No test interrupts an operation half-way; the state left behind by a partial run is never looked at.",
 [OPT, S+"simulation/benders_decomposed.py", S+"simulation/decision_tree.py", S+"expression/parsing/parse_expression.py", S+"model/resolve_library.py", S+"study/network.py", S+"study/resolve_components.py"],
 [("operations construct new objects and publish them last", OPT), ("inputs are read-only during a build", S+"study/network.py, "+S+"study/data.py")],
 [], ["deep snapshot of inputs", "problem matrices of the retry"])

prop("C04", "A failing or incomplete data source fails the build, never a wrong problem",
 "If a data source needed by a build fails or has no value for some component, parameter, timestep, scenario or decision-tree node at any of its reads, the build raises; it never returns a problem in which that value was skipped, defaulted, or taken from another timestep, scenario, component or earlier read. Once the source works again, a repeated build gives the exact problem.",
 ["fault_sequences", "crash_points", "inputs"],
 "Every read of every data source during a build as failure point; every error kind a source can raise; series too short for the block, missing scenarios, missing parameters, missing tree nodes.",
 "Tests cover a handful of missing-parameter cases at build start; none makes the n-th read of a source fail, or lets a source fail and recover.",
 [S+"study/data.py", OPT, S+"simulation/linearize.py", S+"expression/evaluate.py"],
 [("data lookup raises on a missing index", S+"study/data.py: get_value of each data structure"),
  ("no error handling between lookup and caller", OPT+": _get_parameter_value")],
 [], ["exception or matrix returned by build_problem"])

prop("C05", "Reading a study under I/O faults gives the exact study or an error",
 "Whatever read errors, short reads, missing, truncated, torn or garbled series files the storage presents while a study (libraries, system, scenario builder, series) is loaded and a problem is built - through the Python API or the command line - the outcome is either an error or a study whose every number is the one written in the files at the moment they were read. A series that lacks a value the build needs, or holds something that is not a number there, never turns into a silently different or missing coefficient.",
 ["fault_sequences", "crash_points", "inputs"],
 "Every open/read call of the loading path as failure point; every error kind; every truncation offset, torn or zero-filled block, dropped or duplicated line of a series file; every read chunking.",
 "Tests load a few intact files, one missing file and one wrong shape; no read ever fails midway and no torn series is loaded.",
 [S+"study/data.py", S+"study/parsing.py", S+"study/resolve_components.py", S+"model/parsing.py", S+"main/main.py"],
 [("series loading", S+"study/data.py: load_ts_from_txt, dataframe_to_time_series, dataframe_to_scenario_series"),
  ("yaml loading and validation", S+"study/parsing.py, "+S+"model/parsing.py"),
  ("command line", S+"main/main.py: main_cli")],
 [], ["database values", "problem built from them", "CLI exit and output"])

prop("C06", "Results do not depend on hash seed, directory order or listing order",
 "For the same study, the loaded libraries, the built problems, and every exported artefact (MPS, LP, structure and options files, converted systems) are identical, byte for byte where they are files, whatever the interpreter's hash randomisation, the order in which the operating system lists the study's files, and the order in which libraries are given. Errors (circular or missing dependencies, duplicates) are likewise reported or not reported independently of these orders.",
 ["configurations", "programs"],
 "All hash seeds, all directory listing orders, all orders of the library list, over generated multi-library studies and decision trees.",
 "The suite runs with a single PYTHONHASHSEED and one listing order, and compares no exported file.",
 [S+"model/resolve_library.py", S+"study/parsing.py", S+"main/main.py", S+"simulation/decision_tree.py", S+"simulation/benders_decomposed.py", OPT, S+"input_converter/src/utils.py"],
 [("dependency-ordered library resolution", S+"model/resolve_library.py: resolve_library"),
  ("coupling variables enumeration", S+"simulation/decision_tree.py: _add_coupling_constraints"),
  ("structure export", S+"simulation/benders_decomposed.py: export_structure")],
 [], ["exported files", "resolved libraries"])

prop("C07", "A Benders export is complete and consistent, or it is reported as failed",
 "When exporting a decomposed problem reports success, its directory holds - whatever was there before - the complete current master, subproblem, structure and options files: every name the options and structure files mention exists, and every (problem, candidate, column) entry designates the column of that name in that problem's file, for exactly the candidates shared with the master. Any write, directory or close failure or crash on the way surfaces as an error, and exporting again after any such failure produces exactly the files of an undisturbed export.",
 ["fault_sequences", "crash_points", "histories"],
 "Every open/write/flush/close/mkdir of the export as failure, short-write or crash point; any leftover files of earlier or aborted exports; any sequence of exports of different problems into the same directory.",
 "Tests export into one directory on a healthy disk and only compare an in-memory structure string for two cases.",
 [S+"simulation/benders_decomposed.py", S+"utils.py", OPT],
 [("file writing", S+"utils.py: serialize, serialize_json"), ("export sequence", S+"simulation/benders_decomposed.py: initialise, export_structure, export_options"),
  ("column bookkeeping", OPT+": register_component_variable, fusion_problems")],
 [("SolverVariableInfo", "column index of each solver variable", OPT)], ["files of the export directory"])

prop("C08", "A Benders run reports the outcome of this run, never a stale one",
 "After running a decomposed problem, success with a solution is reported only if the external solver, started on exactly the files of the current problem, exited normally with code zero, and the solution is then precisely what that solver wrote in this run, of the kind (decomposed or merged) that was asked for. If the solver fails, is killed, cannot be started, or writes nothing or an unreadable result, no solution is reported - in particular none of an earlier run or an earlier problem in the same directory.",
 ["histories", "fault_sequences"],
 "All sequences of runs (decomposed/merged) of one or several problems over shared directories, with every solver outcome: exit codes, signals, spawn failure, no output, torn output, output of the previous run left in place.",
 "The external solver is absent from the test environment, so every test takes the 'binary not found' shortcut; no solver outcome is ever exercised.",
 [S+"simulation/benders_decomposed.py", S+"simulation/runner.py", S+"simulation/output_values.py", S+"utils.py"],
 [("run and result reading", S+"simulation/benders_decomposed.py: run, read_solution"), ("external process", S+"simulation/runner.py: CommandRunner.run")],
 [("solution / is_merged", "last reported solution and its kind", S+"simulation/benders_decomposed.py")],
 ["return value of run", "solution attribute", "files seen by the solver"])

prop("C09", "Running an external solver never disturbs the caller's process",
 "Whatever the external solver does - success, error code, death by signal, failure to start - and whenever the caller is interrupted or another caller runs its own solver at the same time, the process's working directory and environment are never left changed nor ever seen changed by another thread, its signal handlers and open files are left as they were, each solver is started exactly once with its own arguments in its own directory, and each caller gets its own solver's exit code.",
 ["schedules", "fault_sequences", "crash_points"],
 "All interleavings of 1-3 callers each running a solver in its own directory, all solver outcomes and spawn failures, all interrupt points, absolute and relative directories.",
 "No test runs an external command at all, nor two at once.",
 [S+"simulation/runner.py", S+"simulation/benders_decomposed.py"],
 [("external process launch", S+"simulation/runner.py: CommandRunner.run")],
 [("process working directory", "global state of the process", S+"simulation/runner.py")],
 ["os.getcwd", "spawn log", "return code"])

prop("C10", "Decision trees and their couplings are independent of each other",
 "The investment master and subproblems obtained for a decision tree contain, for any number and order of trees created, coupled and built in one process (including the same tree built again, or abandoned after a failure), exactly the variables, weighted costs and constraints of that tree's own nodes and exactly the coupling constraints defined on that tree. Solving the decomposition as exported therefore gives the optimum of that tree's full investment problem.",
 ["histories", "programs"],
 "All interleaved sequences of creating nodes, defining couplings and building, over several trees of any shape, probabilities, blocks and scenarios.",
 "Each test module builds one tree per test and never checks for leftovers of the previous one; the coupling containers are shared by all trees of the process.",
 [S+"simulation/decision_tree.py", S+"simulation/benders_decomposed.py", OPT, S+"simulation/strategy.py"],
 [("coupling collection", S+"simulation/decision_tree.py: define_coupling_constraint, _add_coupling_constraints"),
  ("master fusion", OPT+": fusion_problems"), ("node probability weighting", S+"simulation/strategy.py: ExpectedValue")],
 [("coupling_info / coupling_network", "couplings of a tree", S+"simulation/decision_tree.py")],
 ["master and subproblem matrices", "optimum recomputed from the exported files"])

prop("C11", "Converting an Antares study under I/O faults is all or an error",
 "Whatever read, write or directory operation fails, is cut short or crashes while an Antares study is converted, the conversion either raises or delivers the complete converted system with complete derived series - never a system or series lacking part of the study. (An .ini file of the study that is absent altogether is read as empty by the antares_craft library; that is outside this statement.) The study's own input files are never altered, and converting again after any failure or crash delivers exactly what an undisturbed conversion delivers.",
 ["fault_sequences", "crash_points"],
 "Every file operation of a conversion as failure, short-write or crash point, any error kind, any number of retries.",
 "Tests convert healthy studies once; no file operation fails.",
 [S+"input_converter/src/converter.py", S+"input_converter/src/utils.py", S+"input_converter/src/data_preprocessing/thermal.py", S+"input_converter/src/data_preprocessing/binding_constraints.py"],
 [("conversion steps", S+"input_converter/src/converter.py"), ("yaml output", S+"input_converter/src/utils.py: transform_to_yaml"),
  ("derived series output", S+"input_converter/src/data_preprocessing/")],
 [], ["output yaml", "derived series files", "digest of the study's inputs"])

prop("C12", "Study conversions in one process do not influence each other",
 "Converting a study gives the same system and derived series as converting it alone in a fresh process, whatever other studies were converted before in the same process or are being converted at the same time by other threads, successfully or not (conversions that overlap in time and write to the same place being conversions of the same study).",
 ["histories", "schedules"],
 "All sequences and interleavings of conversions of several generated studies (areas, thermals, storages, renewables, links, batteries), including repeated and failed ones.",
 "Each test converts one study in its own fixture; carried-over class-level or module-level state is never observed.",
 [S+"input_converter/src/converter.py", S+"input_converter/src/data_preprocessing/binding_constraints.py", S+"input_converter/src/data_preprocessing/thermal.py"],
 [("per-conversion state", S+"input_converter/src/data_preprocessing/binding_constraints.py: BindingConstraintsPreprocessing")],
 [("preprocessed_values", "values computed so far, referenced by later operations", S+"input_converter/src/data_preprocessing/binding_constraints.py")],
 ["converted system", "derived series files"])

prop("C13", "Shared expressions and linear expressions behave as immutable values",
 "Combining, transforming, evaluating, linearising, comparing or printing expressions and linear expressions never changes the value of any other expression involved or sharing parts with it: for every sequence and interleaving of such operations by any number of callers over a shared pool, each operation's result is the mathematical result on its operands' original values. Only an explicitly in-place operation changes an expression, and only its own left-hand side.",
 ["histories", "schedules", "programs"],
 "All sequences and interleavings of arithmetic, transformation and evaluation operations over a shared pool of expressions and linear expressions.",
 "Unit tests build fresh operands for each assertion and never look at them again after the operation.",
 [S+"expression/expression.py", S+"expression/copy.py", S+"expression/visitor.py", S+"simulation/linear_expression.py", S+"simulation/linearize.py", S+"expression/operators_expansion.py"],
 [("frozen expression nodes", S+"expression/expression.py"), ("copying transformations", S+"expression/copy.py"),
  ("linear expression arithmetic", S+"simulation/linear_expression.py: LinearExpression")],
 [], ["value of every pool member after every operation"])

prop("C14", "Recorded results keep belonging to the solve they were read from",
 "Results recorded from a solved problem hold, for every component, variable, timestep and scenario, the value of that solve, and stay so whatever is done afterwards: solving that problem again after changes, solving or discarding others, recording further results, comparing or printing. Two recordings compare equal (or close, within the given tolerances) exactly when their non-ignored values do, in either order; two Benders solutions do so exactly when their overall costs and candidates' investments do.",
 ["histories", "schedules"],
 "All sequences and interleavings of solving, modifying, re-solving, recording, reading, ignoring and comparing over several problems.",
 "Tests record once from one solve and compare with one expected value object.",
 [S+"simulation/output_values.py"],
 [("value capture at construction", S+"simulation/output_values.py: OutputValues._build_components"), ("comparison", S+"simulation/output_values.py: _are_mappings_close")],
 [], ["value of each recorded variable", "equality verdicts"])

# ---- outside this technique (pure functions of their input) ----
prop("N01", "Expression text is parsed with the documented grammar and precedence",
 "Every text accepted by the expression grammar denotes the expression that the documented operator precedence and time/scenario syntax prescribe, and every other text is rejected.",
 ["inputs"], "All input strings.", "Tests sample a few dozen strings.",
 ["grammar/Expr.g4", S+"expression/parsing/parse_expression.py"], [("ANTLR grammar and AST builder", S+"expression/parsing/parse_expression.py")])
prop("N02", "Derived thermal series follow the documented formulas",
 "For every thermal cluster, minimum generation, minimum/maximum committed units and their maximal variations are those the Antares definitions give for its capacity, modulation and availability series, for every period length.",
 ["inputs"], "All clusters, series and periods.", "Tests use constant series.",
 [S+"input_converter/src/data_preprocessing/thermal.py"], [("series computation", S+"input_converter/src/data_preprocessing/thermal.py")])
prop("N03", "A converted PyPSA network has the same optimum as the original",
 "Every PyPSA network in the supported subset converts to a study whose optimal cost equals that of the PyPSA network.",
 ["inputs", "programs"], "All supported networks.", "The converter's tests cannot run offline; they sample four networks.",
 [S+"pypsa_converter/pypsa_converter.py"], [("network conversion", S+"pypsa_converter/pypsa_converter.py")])
prop("N04", "Only compatible ports can be connected, with exactly one definition per field",
 "Connecting two ports succeeds exactly when both exist, have the same type, and each field of that type is defined by exactly one of the two sides.",
 ["inputs"], "All pairs of models and ports.", "Tests sample four cases.",
 [S+"study/network.py"], [("connection validation", S+"study/network.py: PortsConnection")])
prop("N05", "Reference model libraries describe the physics they document",
 "For each model of the shipped libraries, the feasible set and cost are those of the documented component for every admissible parameter set.",
 ["inputs", "programs"], "All parameter sets of all shipped models.", "Tests sample a few reference cases.",
 [S+"libs/reference_models/andromede_v1_models.yml", S+"libs/antares_historic/antares_historic.yml"], [("library definitions", S+"libs")])
pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(p)+"\n" for p in P))
print(len(P))

NA_REASONS = {
    "N01": "a pure function of one string: no scheduling, time, I/O, randomness or crash point for the simulator to control; "
    "deciding it is input generation against a grammar, another family. (C02 interleaves parsers, C03 aborts them, C05 feeds them damaged files.)",
    "N02": "pure arithmetic on series already in memory: no schedule, fault or history can change it; needs input generation against a formula. "
    "(C11 and C12 check that these series do not depend on faults, crashes or other conversions.)",
    "N03": "pure conversion of an in-memory network, and pypsa is not installed in this sandbox, so the code cannot even be imported.",
    "N04": "a pure predicate on two ports and two models: nothing for a scheduler or a fault injector to decide. (C01's reference refuses "
    "the same networks in the histories it generates.)",
    "N05": "a question about the meaning of shipped YAML text against written documentation: no execution nondeterminism is involved.",
}
