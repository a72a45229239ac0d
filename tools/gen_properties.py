#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay editable)."""
import json, os
LM = "sawatabi/model/logical_model.py"
PM = "sawatabi/model/physical_model.py"
P = []
def add(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})

add("C01", "Interaction store stays consistent under add/update/remove",
    "After any sequence of adding, updating and removing interactions, every interaction of a logical model is described by exactly one complete record (unique name, every built-in property and every attribute column present for every interaction), quadratic targets are stored in canonical label order, and each call changes only the interaction it addresses and only the properties it was given (plus its timestamp and its 'not yet converted' mark). "
    "Attributes given on add or update are readable back for that interaction, and adding a name that exists (alive or removed), updating a removed one, or addressing an unknown one is refused without changing the model.",
    ["inputs", "histories"], "for every well-formed model, every target/name, every coefficient, scale, attribute dict and timestamp, and every history of such calls",
    "Tests add a handful of interactions and read back single columns; they never quantify over model contents, attribute sets or call histories (e.g. an attribute first introduced by an update followed by an add).",
    [LM], [("add_interaction/update_interaction/remove_interaction", LM), ("_get_interaction_info_from_target, _get_internal_name_from_target_and_name, _has_name, _is_removed, get_attributes", LM)],
    [("interaction arrays", "one column list per property, row i = interaction i", LM), ("attribute list", "names of the attribute columns", LM)],
    ["add_interaction", "update_interaction", "remove_interaction", "get_attributes", "get_attribute"])

add("C02", "The physical model is the exact sum of the live interactions",
    "Converting a logical model to a physical model gives, for every variable and every unordered pair of variables, the coefficient equal to the sum of coefficient x scale over all non-removed interactions on that variable or pair, including those contributed by the model's constraints (converted to the model's type); entries whose sum is zero are absent and nothing else is present. "
    "The physical model has the logical model's type, and its offset is the logical offset plus the constraints' contributions, with placeholders evaluated at the supplied values.",
    ["inputs", "histories"], "for every well-formed logical model (any number of interactions, duplicates on one key, removed ones, scales, constraints) and every placeholder assignment",
    "Tests use fixed models with two or three interactions; they cannot cover every combination of duplicated keys, removals, scales and constraints.",
    [LM, PM], [("to_physical: grouping by key, zero filtering, constraint resolution", LM), ("PhysicalModel.add_interaction", PM)],
    [("raw interactions", "body -> key -> coefficient", PM)], ["LogicalModel.to_physical"])

add("C03", "Converting to a physical model leaves the logical model intact",
    "Converting a logical model to a physical model changes nothing in the logical model except that removed interactions disappear and the remaining ones are marked as converted: names, targets, coefficients, scales, timestamps, attributes, variables, offset, deleted and fixed variables and constraints of the surviving interactions are exactly as before. "
    "Converting again without further edits therefore yields an equal physical model.",
    ["inputs", "histories"], "for every well-formed logical model with any constraints and any pattern of removed interactions",
    "Tests look at a few fields after one conversion; temporary merging of constraint interactions, the restore and the physical removal interact in ways only some histories expose.",
    [LM], [("to_physical: save / merge constraints / restore / drop removed / clear dirty", LM)],
    [("interaction arrays", "rows of the logical model", LM)], ["LogicalModel.to_physical", "LogicalModel.__eq__"])

add("C04", "Variable numbering of a physical model is a bijection",
    "In a converted model the label-to-index and index-to-label tables are mutually inverse, the indices are exactly 0..n-1 in declaration order of the variables, and every variable that occurs in the physical model's interactions and is declared and not deleted in the logical model has an index, while no other variable has one.",
    ["inputs", "histories"], "for every set of declared variable arrays, every set of live interactions and every deleted set",
    "Tests check the tables of three small models; the guarantee is over all declarations, deletions and zero-sum cancellations.",
    [LM, PM], [("to_physical: label_to_index / index_to_label construction", LM)],
    [("label/index tables", "numbering used by the solvers", PM)], ["PhysicalModel._label_to_index", "PhysicalModel._index_to_label"])

add("C05", "Ising/QUBO conversion preserves the energy landscape",
    "Converting a logical model between Ising and QUBO changes its energy by the same constant for every assignment (with x = (s+1)/2), for any coefficients and scales, so energy differences, ground states and rankings are preserved; the value offset + sum(coefficient x scale x variables) is preserved exactly, and a round trip gives back the original coefficients per variable and pair and the original offset. "
    "Removed interactions stay removed and contribute nothing, all live interactions and variables carry the new variable type, and converting to the current type changes nothing.",
    ["inputs", "histories"], "for every well-formed model, all coefficients and scales, all assignments, any number of conversions",
    "Tests convert one fixed model with unit scales and compare numbers; the identity is over all assignments, coefficients and scales.",
    [LM], [("to_ising, to_qubo, _convert_mtype, _update_variables_type", LM)],
    [("offset", "constant term", LM)], ["LogicalModel.to_ising", "LogicalModel.to_qubo"])

add("C06", "Fixing a variable equals substituting its value",
    "After fixing a variable to a legal value, the energy of the model for every assignment of the other variables equals the energy of the previous model with that variable set to the value, provided no constraint mentions it; no live interaction refers to the fixed variable any more, and interactions not involving it are unchanged. "
    "Values outside the variable's domain are refused without changing the model.",
    ["inputs", "histories"], "for every well-formed model (including one with removed interactions and previously fixed variables), every variable, every legal value and every assignment of the rest",
    "Tests fix one variable in a small model and check the resulting numbers; successive fixes and previously removed interactions are not explored.",
    [LM], [("fix_variable", LM), ("select_interactions_by_variable", LM)],
    [("offset", "absorbs fixed linear terms", LM)], ["LogicalModel.fix_variable"])

add("C07", "Deleting a variable removes it everywhere",
    "After deleting a variable no live interaction and no constraint of the model refers to it, so it appears in no later physical model; all interactions and constraint memberships not involving it are unchanged. "
    "Deletion succeeds for any variable of the model, whether or not it occurs in the model's constraints.",
    ["inputs", "histories"], "for every well-formed model, every variable, any constraints of any kind",
    "Tests delete a variable that is in the only constraint; other constraint kinds and memberships are not covered.",
    [LM, "sawatabi/model/constraint/"], [("delete_variable", LM), ("select_interactions_by_variable", LM)],
    [("deleted", "labels deleted", LM)], ["LogicalModel.delete_variable"])

add("C08", "Merging models adds their interactions, nothing lost",
    "Merging another model of the same type into a model yields a model whose interactions are exactly those of both (coefficients, scales, timestamps, flags, attributes with missing ones blank), with unique names (only names used by both sides are changed), whose offset is the sum, whose deleted and fixed sets and constraints are the unions, and whose variable arrays cover both; a model of the other type is first converted. "
    "Incompatible models (different dimensions of a shared variable, a shared constraint label) are refused without changing the receiving model.",
    ["inputs", "histories"], "for every pair of distinct well-formed models",
    "Tests merge four fixed pairs; attribute alignment, duplicate names and refusal atomicity quantify over all pairs.",
    [LM], [("merge", LM), ("append", LM), ("_convert_mtype", LM)],
    [("interaction arrays", "rows", LM)], ["LogicalModel.merge"])

add("C09", "Constraint penalties equal their defining polynomials",
    "The QUBO model generated by an n-hot constraint has energy strength*((sum x - n)^2 - n^2), by a zero-or-one-hot constraint strength*(sum x)(sum x - 1), and by an equality constraint on two disjoint variable sets strength*(sum x - sum y)^2, for every 0/1 assignment. "
    "The generated model mentions no other variable and contains one interaction per variable or pair.",
    ["inputs"], "for every finite variable set, every positive n, every strength and every 0/1 assignment",
    "Tests compare coefficients for a few sizes with unit strength; the identity is over all sets, strengths and assignments.",
    ["sawatabi/model/constraint/n_hot_constraint.py", "sawatabi/model/constraint/zero_or_one_hot_constraint.py", "sawatabi/model/constraint/equality_constraint.py"],
    [("to_model of the three constraint classes", "sawatabi/model/constraint/")], (), ["NHotConstraint.to_model", "ZeroOrOneHotConstraint.to_model", "EqualityConstraint.to_model"])

add("C10", "Constraint variable sets follow set algebra",
    "A constraint's variable set(s) after construction, additions and removals are exactly the set union and difference of what was given (arrays flattened, single variables and lists accepted, duplicates ignored); for equality constraints each side is independent. "
    "Removing a variable that is not a member is refused and changes nothing, and no operation ever modifies a collection owned by the caller.",
    ["inputs", "histories"], "for every sequence of constructions, additions and removals with arrays, single variables, lists or sets",
    "Tests use a few literal calls and never check caller-owned collections or refused removals of mixed sets.",
    ["sawatabi/model/constraint/"], [("_check_variables_and_to_set", "sawatabi/model/constraint/abstract_constraint.py"), ("add_variable*/remove_variable*", "sawatabi/model/constraint/")],
    [("_variables, _variables_1, _variables_2", "member sets", "sawatabi/model/constraint/")], ["get_variables", "get_variables_1", "get_variables_2"])

add("C11", "Exports to BQM and polynomial carry exactly the physical model",
    "The exported binary quadratic model has, for every variable and pair, the physical coefficient times the requested sign (default: negated), the same offset, and the variable type matching the model type. "
    "The exported polynomial has exactly one entry per linear and per quadratic interaction, at the numbered indices of the variables (diagonal for linear), with the negated coefficient; neither export changes the physical model.",
    ["inputs"], "for every physical model and every sign",
    "Tests compare literal dictionaries for one small model.",
    [PM], [("to_bqm, to_polynomial", PM)], [("raw interactions", "body -> key -> coefficient", PM)], ["PhysicalModel.to_bqm", "PhysicalModel.to_polynomial"])

add("C12", "Annealing solver reports true energies of legal samples",
    "Every sample returned by the built-in annealing solver assigns each variable of the physical model a value legal for the model type, and the energy reported with it equals offset - sum(coefficient x variables) of that sample. "
    "One sample is produced per read; per-sweep histories have one entry per sweep, the recorded energies being the energies of the states at the start of each sweep.",
    ["inputs", "configurations"], "for every non-empty physical model of either type, every number of reads and sweeps, temperatures, initial states, reverse options, pick-up mode and every random outcome",
    "Tests run tiny models with one seed; the energy is accumulated incrementally over random flips, so correctness is over every flip sequence.",
    ["sawatabi/solver/sawatabi_solver.py"], [("annealing, calc_energy_diff, solve", "sawatabi/solver/sawatabi_solver.py")],
    [("x / energy", "current spins and running energy", "sawatabi/solver/sawatabi_solver.py")], ["SawatabiSolver.solve"])

add("C13", "Annealing solver is reproducible and leaves its inputs alone",
    "Solving the same physical model twice with the same seed (any seed, including 0) and the same parameters gives the same samples, energies and histories, regardless of earlier use of the solver object. "
    "Solving does not modify the physical model, the caller's initial states or the caller's reverse options.",
    ["inputs", "configurations", "histories"], "for every model, every integer seed, every parameter combination and any previous use of the solver instance",
    "Tests use one non-zero seed and never inspect the arguments afterwards.",
    ["sawatabi/solver/sawatabi_solver.py"], [("solve: random generator creation, initial state conversion", "sawatabi/solver/sawatabi_solver.py")], (), ["SawatabiSolver.solve"])

add("C14", "Solvers refuse what they cannot solve",
    "Every solver refuses an argument that is not a physical model with a TypeError and a physical model without any interaction with a ValueError, before contacting any back end; the GPU (Optigan) solver also refuses Ising models and any non-200 response; the annealing solver refuses initial states whose count differs from the number of reads, unknown pick-up modes, and reverse options lacking a period or a temperature. "
    "Arguments that satisfy these rules are not refused, and the model handed to the back end is the model's negated export.",
    ["inputs", "configurations"], "for every solver, every model and every combination of the arguments named",
    "Tests try one illegal value per rule; they do not cover all combinations or the order of validation and back-end contact.",
    ["sawatabi/solver/local_solver.py", "sawatabi/solver/dwave_solver.py", "sawatabi/solver/optigan_solver.py", "sawatabi/solver/sawatabi_solver.py"],
    [("argument checks at the top of solve", "sawatabi/solver/")], (), ["LocalSolver.solve", "DWaveSolver.solve", "OptiganSolver.solve", "SawatabiSolver.solve", "LocalSolver.default_beta_range"])

add("C15", "GPU solver request and response are faithful",
    "A request to the GPU (Optigan) solver carries the model's polynomial, the requested number of steps and timeout, the duplicate option exactly when asked for, the configured endpoint and token (explicit ones taking precedence over the configuration file), compressed exactly when asked for. "
    "In the result, the i-th value of each returned spin vector is the value of the variable numbered i, each sample carries the energy returned at its position, and the raw response is available as the sample set's info.",
    ["inputs", "configurations"], "for every QUBO model, every option combination and every well-formed response",
    "Tests mock one response with one sample and never inspect the request.",
    ["sawatabi/solver/optigan_solver.py"], [("OptiganSolver.solve", "sawatabi/solver/optigan_solver.py")], (), ["requests.post arguments", "returned SampleSet"])

add("C16", "Stream step reports exactly what entered and left the window",
    "At every processed window the user callbacks receive the window's elements in event-time order - for the incremental algorithm together with all earlier elements, for the partial algorithm together with the earlier elements selected by the filter - the elements that were not in the previous step as incoming and the elements of the previous step that are gone as outgoing, each in event-time order. "
    "The previous model and previous sample set handed to the callbacks are those of the last step that produced them (an empty model of the configured type and no sample set at the start), and the state kept for the next step is this step's timestamp, elements, model and sample set.",
    ["histories", "inputs"], "for every algorithm, every sequence of windows whose elements arrive in event-time order, every filter and every callback result",
    "Tests run a few whole pipelines and look at printed text; they do not observe incoming/outgoing or the kept state over arbitrary histories.",
    ["sawatabi/algorithm/abstract_algorithm.py"], [("SolveDoFn.process, resolve_outgoing, resolve_incoming", "sawatabi/algorithm/abstract_algorithm.py")],
    [("bag states", "timestamp, elements, model, sample set of the previous step", "sawatabi/algorithm/abstract_algorithm.py")], ["map_fn / solve_fn / unmap_fn arguments", "bag states"])

add("C17", "A failing or late window never breaks the stream",
    "A window older than the last processed one is reported as outdated, naming its own timestamp and the later one already processed, and changes no state; the first window of a stream and any window not older than the last processed one is never reported as outdated. "
    "An exception in mapping, solving or unmapping yields exactly one message naming the failed phase and never propagates; later phases of that window are skipped, and state produced by phases that did not complete is left as it was.",
    ["fault_sequences", "histories"], "for every timestamp order and every failure of any of the three callbacks at any step",
    "Tests make one callback always fail; mixed success/failure histories, and the state afterwards, are not observed.",
    ["sawatabi/algorithm/abstract_algorithm.py"], [("SolveDoFn.process: outdated check, try/except around the three phases", "sawatabi/algorithm/abstract_algorithm.py")],
    [("bag states", "as in C16", "sawatabi/algorithm/abstract_algorithm.py")], ["yielded messages", "bag states"])

add("C18", "Attenuation scales interactions linearly with age",
    "In an attenuation step, before solving, every live interaction's scale is set to the value linear in its reference timestamp that is 1 for the newest and the configured minimum scale for the oldest, hence within [min, 1] and monotone in the timestamp; removed interactions do not influence it, and if all timestamps are equal no scale changes. "
    "No other property of the interactions is changed by the attenuation, and other algorithms never change scales.",
    ["inputs", "histories"], "for every model returned by the mapping, every reference timestamp column and every minimum scale in [0,1]",
    "One pipeline test runs it and never inspects a scale.",
    ["sawatabi/algorithm/abstract_algorithm.py"], [("SolveDoFn.process: attenuation block", "sawatabi/algorithm/abstract_algorithm.py")],
    [("scale column", "per interaction factor", LM)], ["model passed to solve_fn"])

add("C19", "Number-partition reference solver is exact",
    "For every list of positive integers the dynamic-programming partition solver returns True exactly when the list can be split into two parts of equal sum; each returned pair of index lists is a partition of all indices, the first part having the largest achievable sum not exceeding half of the total. "
    "Without enumeration exactly one such partition is returned; with enumeration every such first part is returned exactly once.",
    ["inputs"], "for every list of positive integers",
    "Tests cover a dozen literal lists.",
    ["sawatabi/utils/npp.py"], [("solve_npp_with_dp", "sawatabi/utils/npp.py")], [("dp", "reachability table with witnesses", "sawatabi/utils/npp.py")], ["solve_npp_with_dp"])

add("C20", "Argument checks and shape arithmetic",
    "The shared argument checks accept a value exactly when it is an instance of one of the stated types (for tuples and lists: non-empty and every element so) and raise TypeError otherwise; model-type and variable-type names translate one-to-one and unknown names are refused. "
    "Element-wise add, subtract, max and min return the same container kind with the element-wise results in order and refuse mixed or other kinds, and flattening a nested list yields exactly its leaves in order.",
    ["inputs"], "for all values, types, tuples, lists and nestings",
    "Tests try a few literals.",
    ["sawatabi/base_mixin.py", "sawatabi/utils/functions.py"], [("_check_argument_type*, _modeltype_to_vartype, _vartype_to_modeltype", "sawatabi/base_mixin.py"), ("Functions", "sawatabi/utils/functions.py")], (), ["BaseMixin", "Functions"])

add("C21", "Variable arrays and size accounting",
    "Declaring an array registers it under its name with the requested shape and the variable type of the model, replacing only that name; appending grows each dimension of the named array by the given amounts (creating it when absent) and leaves every other array alone, existing labels staying valid. "
    "The reported total is the sum of the products of the shapes, the deleted and fixed counts are the numbers of distinct deleted and fixed labels, and the alive count is total minus deleted minus fixed.",
    ["inputs", "histories"], "for every set of arrays of any dimension, every append with the same number of dimensions, and every set of deleted and fixed labels",
    "Tests use a handful of shapes.",
    [LM], [("variables, append, get_size, get_all_size, get_deleted_size, get_fixed_size", LM)], [("_variables", "name -> array", LM)], ["LogicalModel.variables", "LogicalModel.append", "get_size"])

add("C22", "Equality of models and constraints is componentwise",
    "Two logical models, physical models or constraints compare equal exactly when they are of the same kind and every semantic component (type, variables, interactions, attributes, constraints, deleted and fixed sets, offset; coefficients and numbering; variable sets, n, label, strength) is equal, and the inequality operator is always the negation. "
    "Comparing with an object of another kind is False, not an error.",
    ["inputs"], "for every pair of objects",
    "Tests flip some components one at a time on one example.",
    [LM, PM, "sawatabi/model/constraint/"], [("__eq__, __ne__", "sawatabi/model/")], (), ["==", "!="])

add("C23", "Importing a PyQUBO expression preserves its energy",
    "Importing a PyQUBO expression or compiled model into an empty QUBO model makes the model's energy equal to the expression's value for every 0/1 assignment, the offset being the expression's constant. "
    "Every term refers to the declared variable the expression used, and the imported PyQUBO object is not changed.",
    ["inputs"], "for every quadratic expression over declared variables without placeholders",
    "Tests import one expression and compare a few coefficients.",
    [LM], [("from_pyqubo", LM)], (), ["LogicalModel.from_pyqubo"])

add("C24", "Stream elements get consecutive indices and their own timestamps",
    "The k-th element processed by the index-assigning stage is paired with index k counted from the start of the stream (0, 1, 2, ...), its value unchanged, one output per input. "
    "The timestamping stages pair each element with its own event time, unchanged, one output per input.",
    ["histories", "inputs"], "for every stream of elements and timestamps",
    "Observed only through whole-pipeline prints for two fixed files.",
    ["sawatabi/algorithm/abstract_algorithm.py"], [("IndexAssigningStatefulDoFn, WithTimestampTupleFn, WithTimestampStrFn", "sawatabi/algorithm/abstract_algorithm.py")], [("index state", "number of elements seen", "sawatabi/algorithm/abstract_algorithm.py")], ["process outputs"])

add("C25", "Clock helpers agree and profiling is transparent",
    "All clock helpers report the same clock in their unit (seconds, milli-, micro-, nanoseconds), the integer variants being the truncation of the corresponding value. "
    "A profiled function returns exactly what the wrapped function returns for the same arguments, together with the function's name and a duration that is the difference of two clock readings around the single call; exceptions pass through.",
    ["inputs"], "for every clock value, wrapped function and arguments",
    "Tests compare two real clock readings and one wrapped function.",
    ["sawatabi/utils/time.py", "sawatabi/utils/profile.py"], [("current_time*", "sawatabi/utils/time.py"), ("profile", "sawatabi/utils/profile.py")], (), ["utils.current_time*", "utils.profile"])

add("C26", "Windows contain exactly the elements of their time span",
    "Each window delivered to the solving stage contains exactly the input elements whose event time lies in the window's span (sliding, fixed or incremental as configured), in a run on any Beam runner.",
    ["schedules", "inputs"], "for every stream, window configuration and runner schedule",
    "Only two files on the direct runner are run.",
    ["sawatabi/algorithm/window.py", "sawatabi/algorithm/delta.py", "sawatabi/algorithm/incremental.py", "sawatabi/algorithm/partial.py", "sawatabi/algorithm/attenuation.py"], [("create_pipeline: WindowInto", "sawatabi/algorithm/")], (), ["pipeline output"])

add("C27", "Text and Pub/Sub input parsing keeps exactly the valid messages",
    "Reading a source as numbers yields, in order, the integer value of exactly those messages that consist of decimal digits only and drops the others; reading it as JSON yields the parsed value of every message.",
    ["inputs"], "for every message sequence",
    "Tests read two fixed files.",
    ["sawatabi/algorithm/io.py"], [("_read_as_number, _read_as_json", "sawatabi/algorithm/io.py")], (), ["IO.read_from_text_as_number", "IO.read_from_text_as_json"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
