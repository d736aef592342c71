"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, level="exploration"):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, level=level))


prop("C01", "Every simulated case is one complete, valid run of the process model",
     "Simulating N cases of a well-formed process model terminates and logs exactly the cases 0..N-1, each of which is one "
     "complete run of the model from start to end. Every activity executed in a case is one the model allows at that point, "
     "is enabled at the moment its predecessors completed (joins wait for what they must wait for), and no token is lost, "
     "duplicated or left behind, whatever the nesting of sequences, XOR, AND, OR, loops, timers and event-based gateways.",
     ["programs", "inputs", "configurations"],
     "all block-structured process models, all scenarios (calendars, pools, probabilities), all random choices, all numbers of cases",
     "tests replay a dozen fixed models with a few fixed markings; token-flow errors need particular nestings, timings and choices",
     ["prosimos/control_flow_manager.py", "prosimos/simulation_engine.py"],
     [("update_process_state", "BPMNGraph.update_process_state"), ("OR/AND join enabling", "BPMNGraph._is_or_join_blocked / is_enabled"),
      ("event loop", "execute_full_process")],
     "property-based testing: generated models + run-membership oracle",
     "Random models up to 12 tasks and nesting depth 6, 1-6 cases; every log parsed by an independent recursive oracle.")

prop("C03", "A resource never works on two tasks at once",
     "Two tasks executed by the same resource never overlap in time, except tasks executed as members of one parallel batch.",
     ["programs", "inputs", "configurations", "schedules"],
     "all models and scenarios (shared pools, congestion, calendars, random durations), all interleavings of cases",
     "tests check a handful of logs by count; an overlap needs a particular contention pattern",
     ["prosimos/simulation_engine.py", "prosimos/simulation_queues_ds.py"],
     [("resource queue", "DiffResourceQueue.pop_resource_for / update_resource_availability"), ("task execution", "SimBPMEnv.execute_task")],
     "property-based testing: generated scenarios + log invariant",
     "All pairs of rows per resource over congested random scenarios.")

prop("C04", "Tasks run on assigned resources, in their calendars, for the sampled time",
     "Every task is executed by a resource assigned to that task, starts inside that resource's working calendar, and finishes as soon "
     "as the working time of that calendar since the start adds up to the processing time drawn from the distribution given for that "
     "task and resource. Work is suspended outside the calendar and never lost or added.",
     ["inputs", "configurations", "programs"],
     "all weekly calendars, all assignments of resources to tasks, all start instants, fixed and bounded random durations up to many days",
     "tests use one or two office-hour calendars; errors hide at week wrap-around, gaps of days, several periods a day and long tasks",
     ["prosimos/simulation_setup.py", "prosimos/simulation_engine.py", "prosimos/execution_info.py", "prosimos/simulation_properties_parser.py"],
     [("duration", "SimDiffSetup.ideal_task_duration / real_task_duration"), ("calendar waiting", "SimDiffSetup.next_resting_time"),
      ("parsing of pools and calendars", "parse_resource_profiles, parse_calendar_model, parse_task_resource_distributions")],
     "property-based testing: generated calendars + independent calendar model",
     "Start/end of every row against an independent weekly calendar; tolerance 1 ms per day for the 23:59:59.999 convention.")

prop("C05", "Tasks are served in order, by the first free eligible resource, without delay",
     "Without batching, tasks are handed to resources in the order in which they become enabled; each goes to an eligible resource whose release is earliest, "
     "and starts at the first working instant at which it is enabled and that resource is free, never earlier and never later.",
     ["schedules", "inputs", "configurations", "programs"],
     "all models, scenarios and contention patterns without batching or multitasking",
     "tests look at isolated start times; order and work-conservation must hold over every history of enablements and releases",
     ["prosimos/simulation_engine.py", "prosimos/simulation_queues_ds.py"],
     [("event queue", "EventQueue.pop_next_event"), ("resource queue", "DiffResourceQueue"), ("start time", "SimBPMEnv.execute_task")],
     "property-based testing: reference allocator replays the log",
     "The allocation is deterministic given the log order, so a reference allocator recomputes each start.")

prop("C06", "Cases arrive within the arrival calendar at the sampled inter-arrival times",
     "Cases are numbered in order of arrival, exactly as many arrive as requested, every arrival lies inside the arrival calendar, and each is the "
     "first open instant at or after the previous arrival plus a value of the inter-arrival distribution. The first case arrives at the requested start when that is open; "
     "when arrival times are given explicitly, cases arrive at exactly those times.",
     ["inputs", "configurations"],
     "all arrival calendars, start instants (with time zones), inter-arrival distributions (fixed, uniform, histogram) and explicit arrival times",
     "tests cover one calendar with two start instants; closed starts, gaps longer than the inter-arrival time and histograms are not reached",
     ["prosimos/simulation_setup.py", "prosimos/simulation_engine.py", "prosimos/histogram_distribution.py", "prosimos/simulation_properties_parser.py"],
     [("next arrival", "SimDiffSetup.next_arrival_time"), ("arrival events", "SimBPMEnv.generate_all_arrival_events / generate_fixed_arrival_events"),
      ("histogram", "HistogramDistribution")],
     "property-based testing: generated arrival models + calendar oracle",
     "First enablement of each case against an independent calendar and the set of admissible inter-arrival times.")

prop("C02", "Decision gateways follow their probabilities, conditions and defaults",
     "At an XOR gateway exactly one outgoing flow is taken, with the probability given for it; at an OR gateway each flow is selected independently with its probability "
     "and at least one is. When branching conditions are given, only flows whose condition holds for the case's attributes are taken; when none holds the default flow is taken, "
     "or the probabilities decide if there is no default. Several true conditions at an XOR are resolved by their probabilities rescaled.",
     ["inputs", "configurations", "programs"],
     "all gateways, probability vectors (0 and 1 included), condition sets (OR of ANDs, every operator and attribute type) and attribute values",
     "tests check a few two-way gateways; wrong defaults, operator edge cases and rescaling need particular attribute values and flow orders",
     ["prosimos/probability_distributions.py", "prosimos/gateway_condition_choice.py", "prosimos/branch_condition_rules.py", "prosimos/branch_condition_parser.py", "prosimos/control_flow_manager.py"],
     [("gateway choice", "BPMNGraph.update_process_state / ElementInfo"), ("conditions", "AllBranchConditionRules / BranchConditionRule"), ("probabilities", "Choice.get_outgoing_flow")],
     "property-based testing: generated gateways, independent evaluation of conditions, exact binomial bounds",
     "Frequencies rejected below p=1e-11 per gateway; conditions compared decision by decision.")

prop("C07", "Batched tasks run in batches as configured, and no case is lost",
     "Every case that reaches a batched task executes it exactly once, alone or as member of one batch, whatever the firing rules: none is lost, repeated or left waiting. "
     "A batch has distinct cases of one task and one resource, and does not start before all of them are enabled; members of a parallel batch start and end together, members of a sequential "
     "one follow each other; durations are scaled as configured. Tasks run alone only as the size distribution allows. Batches have the size required by a size rule or, without rules, by the size "
     "distribution; only tasks waiting when nothing else can happen may form a smaller batch.",
     ["programs", "configurations"],
     "all models, firing rules (size, ready_wt, large_wt, daily_hour, week_day and conjunctions/disjunctions), batch types, size and duration distributions, priorities, resources and calendars",
     "tests run hand-made rules on a sequential model with one batched task; losses depend on what waits when, over several tasks, loops, congestion and days",
     ["prosimos/batch_processing.py", "prosimos/batch_processing_parser.py", "prosimos/control_flow_manager.py", "prosimos/simulation_engine.py"],
     [("queue of waiting tasks", "BPMNGraph.enable_batch_or_task / _clear_batch"), ("firing", "OrFiringRule.is_true / AndFiringRule.get_firing_batch_size"),
      ("execution", "SimBPMEnv.execute_seq_task_batch / execute_parallel_task_batch"), ("end of simulation", "SimBPMEnv.execute_if_any_unexecuted_batch")],
     "property-based testing: generated models and batching configurations, invariants over the log + run-membership oracle",
     "Sizes whose duration factor is ambiguous between README and code are not compared; the instant of firing is C08.")

prop("C08", "A batch fires exactly when its firing rule says",
     "For a batched task with free resources, a batch starts at the instant given by its rule: size - when the required number of tasks is waiting; ready_wt - when no task joined for the lower "
     "limit (or, with a single task, the upper one); large_wt - when the oldest task has waited for the lower limit with two tasks or more, or a second one joins until the upper limit, or alone after "
     "it; week_day / daily_hour - as soon as two tasks wait within the day or hours, or else at the next opening with all those waiting, whatever happens (or not) in the process meanwhile. "
     "A week day, hours and a size in one rule hold together, in whatever order they are written; of several alternative rules, the one satisfied first fires.",
     ["histories", "configurations"],
     "all rules of one kind (every comparison, one or two limits), conjunctions of week day, hours and size, alternatives of all of these, and all histories of enablements, including long gaps, days without events and the end of the simulation",
     "tests have a handful of histories per rule; firing is decided lazily when some other event happens, so errors show only for particular gaps",
     ["prosimos/batch_processing.py", "prosimos/control_flow_manager.py", "prosimos/simulation_engine.py", "prosimos/weekday_helper.py"],
     [("firing", "AndFiringRule.get_firing_batch_size"), ("hours and days", "FiringSubRule.get_batch_size_by_daily_hour / get_batch_size_relative_time"),
      ("waiting times", "AndFiringRule.get_ready_wt / get_large_wt"), ("end of simulation", "OrFiringRule.get_enabled_time")],
     "property-based testing: generated rules and enablement histories, reference model of each rule (differential)",
     "Tolerance 1.5 s (strict limits are one second off by design). Tasks left over when nothing else can happen are only loosely constrained. Conjunctions of a waiting time with something else are covered by C07's invariants.")

prop("C11", "Statistics agree with the log they summarise and can be loaded back",
     "Every figure of the simulation statistics equals the one computed from the event log and the scenario: the simulated span, per resource the tasks allocated, time worked, "
     "time available in its calendar and utilisation, per task and for the process the count, minimum, maximum, average and total of waiting, processing, cycle and idle "
     "times and cost. The statistics returned in memory equal the written ones, and loading a written file returns its figures unchanged.",
     ["programs", "inputs", "configurations"],
     "all models and scenarios (parallel branches, waiting, tasks suspended by calendars), all logs they produce",
     "tests check single figures of sequential examples; interval unions and calendars fail for particular overlaps",
     ["prosimos/simulation_stats_calculator.py", "prosimos/simulation_stats.py", "prosimos/execution_info.py", "prosimos/simulation_engine.py"],
     [("KPIs", "LogInfo.compute_execution_times / _update_global_task_stats"), ("resources", "save_resource_utilization"), ("loading", "load_diff_simulation_results")],
     "property-based testing: differential against a recomputation from the log; round trip through the loader",
     "All columns of the statistics except the duration columns (known finding).")

prop("C12", "Work and resource queues behave as their specification over any history",
     "Over any sequence of operations, the priority queue returns the element with the lowest priority, ties in order of insertion; the event queue returns events by case priority and "
     "then enabling time; the queue of shared resources hands out an eligible resource with the earliest availability, and an update of one resource's availability is seen by every task that shares it.",
     ["histories"],
     "all operation sequences (insert, update, remove, pop, peek, availability updates) over any sets of elements, tasks and resources",
     "tests run one fixed sequence; stale entries only show after particular interleavings of updates and pops",
     ["prosimos/simulation_queues_ds.py"],
     [("priority queue", "PriorityQueue"), ("event queue", "EventQueue"), ("resource queue", "DiffResourceQueue")],
     "property-based testing: model-based operation sequences against a dictionary reference",
     "Histories up to 50 operations.")

prop("C10", "Attributes take the values their definitions prescribe and steer gateways",
     "Every row of the log shows, in one column per attribute, the attribute's current value. Case attributes are drawn from their distribution once per case; global ones once per simulation, "
     "again when a case that redefines them executes its first activity; event attributes when a task is executed (alone or in a batch), each evaluated on the values before that execution. "
     "Expressions and decision trees evaluate as written, an operation that fails gives 0, discrete values and state transitions follow their probabilities. Gateway conditions see the current "
     "values; a condition on an attribute without a value is false.",
     ["programs", "inputs", "histories"],
     "all models, sets of global, case and event attributes of all kinds (also with names shared between sections), expressions, priorities and interleavings of cases",
     "tests check single-attribute examples and one operator per expression; stale or misordered updates need several cases, shared names and particular interleavings",
     ["prosimos/event_attributes.py", "prosimos/case_attributes.py", "prosimos/global_attributes.py", "prosimos/all_attributes.py", "prosimos/event_attributes_parser.py",
      "prosimos/branch_condition_rules.py", "prosimos/simulation_engine.py"],
     [("updates", "SimBPMEnv.update_attributes / execute_full_process"), ("columns", "SimBPMEnv.get_csv_row_data / AllAttributes.get_all_columns_generated"),
      ("expressions", "eval_expr / evaluate_dtree"), ("gateways", "BPMNGraph.get_all_attributes / BranchConditionRule.is_rule_true")],
     "property-based testing: replay of the definitions over generated logs, independent expression evaluator",
     "Values beyond 32-bit floats and failures inside a larger expression are not compared.")

prop("C09", "Priority rules rank cases, and waiting work is served by that rank",
     "A case has the lowest priority level with an alternative all of whose conditions hold for its attributes, whatever the order of the rules (ranges include both limits), and comes behind every level if there is none. "
     "Among tasks waiting for the same resource, one of a better level is never started after one of a worse level, and within a level the one enabled first is served first. "
     "Inside a batch, members follow the levels, then the order of enablement. A resource does not stay idle while a task that only it could do waits.",
     ["inputs", "configurations", "histories"],
     "all sets of rules over text and number attributes, all contention patterns of cases of several levels, all batches with mixed members",
     "tests have two rule sets and simultaneous arrivals; overtaking needs particular arrivals, durations and levels",
     ["prosimos/prioritisation.py", "prosimos/prioritisation_rules.py", "prosimos/prioritisation_parser.py", "prosimos/simulation_engine.py"],
     [("rules", "AllPriorityRules.get_priority"), ("ranking of waiting tasks", "SimBPMEnv.calc_priority_for_task_or_batch, EventQueue"),
      ("order in batches", "CasePrioritisation.get_ordered_case_ids_by_priority")],
     "property-based testing: independent evaluation of rules, no-overtaking invariant over generated logs",
     "Idle waiting of worse levels is a known finding; it is only accepted where a reference allocator reproduces it exactly.")

prop("C13", "Log and statistics files hold exactly what was simulated, however it is run",
     "The log file has one line per executed task (and per intermediate event when events are requested, never otherwise), in the documented columns, and the statistics "
     "file the statistics of the same simulation; asking for one output never changes the other. Any text (commas, quotes, other scripts, column keywords) survives the "
     "trip through the CSV files and prosimos' own readers; buffering of lines loses, repeats or reorders nothing; and the command line gives the same files as the API.",
     ["inputs", "configurations", "histories"],
     "all combinations of outputs, all sizes of the log, all texts of names and attributes, all options of the command line",
     "tests check a few plain logs by number of rows; quoting, buffering boundaries and combinations of options are never sampled",
     ["prosimos/file_manager.py", "prosimos/simulation_engine.py", "prosimos/simulation_stats.py", "bpdfr_discovery/log_parser.py", "cli/diff_res_bpsim.py"],
     [("buffered CSV", "FileManager"), ("log and statistics", "run_simulation / SimBPMEnv.generate_report / save_start_end_info"), ("readers", "parse_csv, event_list_from_csv, load_diff_simulation_results"),
      ("command line", "cli start-simulation / discovery")],
     "property-based testing: differential runs with the same seed, round trips through the readers, model of the buffer",
     "Options against each other on the same seed; random texts; stateful model of the buffered writer; CLI against API.")

prop("C16", "Fuzzy calendars: sure granules are worked, impossible ones never",
     "With fuzzy calendars, a scenario whose probabilities are all 0 or 1 is simulated like the crisp scenario with the same working periods: same starts, same ends, same "
     "statistics. With any probabilities, no task starts or progresses in a granule of probability 0, none is interrupted in a granule of probability 1, and the time worked "
     "adds up to the sampled duration, for every granule size that divides the day, over midnight and the end of the week.",
     ["inputs", "configurations", "programs"],
     "all weekly calendars on granule boundaries, all granule sizes and units, all probabilities, all start instants",
     "tests use hourly granules starting at full hours; seconds, fractions, week wrap-around and first granules are never sampled",
     ["prosimos/fuzzy_engine/fuzzy_calendar.py", "prosimos/simulation_setup.py", "prosimos/simulation_properties_parser.py", "prosimos/simulation_stats_calculator.py"],
     [("fuzzy calendars", "WeeklyFuzzyCalendar / FuzzyModel"), ("parsing", "parse_fuzzy_calendar"), ("statistics", "compute_fuzzy_availability")],
     "property-based testing: crisp reference model for sure calendars, interval invariants for probable ones",
     "Sure scenarios reuse the oracles of C04, C05 and C11; probable ones are checked granule by granule.")

prop("C20", "Timers and events delay cases by their own duration; earliest event wins",
     "An intermediate event lasts a value of the distribution given for it, starts when it is enabled and needs no resource. At an event-based gateway exactly one "
     "event is followed: one whose duration is the shortest of those sampled, and the case continues after exactly that duration.",
     ["programs", "inputs", "configurations"],
     "all models with intermediate events and event-based gateways, all event distributions",
     "tests use one event-based gateway with fixed durations; resampling or shared records need random durations and several events",
     ["prosimos/control_flow_manager.py", "prosimos/simulation_engine.py", "prosimos/execution_info.py"],
     [("event-based gateway", "BPMNGraph.update_process_state"), ("events", "SimBPMEnv.execute_event / TaskEvent.create_event_entity")],
     "property-based testing: generated models with events + run-membership oracle",
     "Every event row of every generated log.")

prop("C22", "Equivalent drawings of a process model are simulated alike",
     "Only the flow structure of the BPMN file matters. Leaving a gateway implicit (several flows out of or into an activity or event, a gateway that both joins and "
     "splits, a merge before the end event) means what the standard says it means; and names, order of elements, namespace prefix, gateway direction, "
     "the type of event definition, diagrams, data objects and annotations have no effect on the simulated times, routes and resources.",
     ["programs", "inputs"],
     "all models, all ways of leaving gateways implicit, all renamings and orderings of the BPMN elements",
     "tests use a handful of files of a single modelling tool; implicit gateways and odd names combine with every other construct",
     ["prosimos/simulation_properties_parser.py", "prosimos/control_flow_manager.py"],
     [("BPMN parsing and implicit gateways", "parse_simulation_model / _add_fake_gateway"), ("names", "BPMNGraph.from_name / CSV rows")],
     "property-based testing: generated models, run-membership oracle and metamorphic re-rendering",
     "Random models with one to four kinds of gateways contracted; the same model re-rendered with other names, order and notation.")

prop("C15", "A simulation depends on nothing but its inputs and the random numbers",
     "The same files, options and random seed give the same log, statistics and warnings whatever this process has simulated before (also runs that failed), in whichever process "
     "(string hash seed) it runs, however the JSON is laid out and in whatever order the keys of its objects and the independent entries of its lists come; the input files are left "
     "untouched; and starting whole weeks later, or with the calendars, arrivals and start expressed in another UTC offset, only moves the result.",
     ["histories", "inputs"],
     "all sequences of simulations in one process, all scenarios, all layouts of the files, all hash seeds, all shifts by whole weeks",
     "tests run one simulation per scenario in one process and compare aggregates; leaks of module-level state or of set order need sequences and several processes",
     ["prosimos/simulation_queues_ds.py", "prosimos/simulation_engine.py", "prosimos/warning_logger.py", "prosimos/simulation_properties_parser.py"],
     [("global warning logger and module state", "warning_logger / run_simulation"), ("orders taken from sets and dicts", "DiffResourceQueue, parse_*"), ("clock", "SimDiffSetup.datetime_from")],
     "property-based testing: metamorphic and differential runs with the same seed",
     "The same scenario after others, in fresh processes with other hash seeds, re-rendered, and moved in time.")

prop("C14", "Invalid models, scenarios, logs and parameters are rejected, nothing is written",
     "Probabilities of discrete case, event or global attributes and rows of transition matrices that do not sum to 1 (beyond 1e-6), unknown attribute or batch types, one name used for a "
     "case and an event attribute, malformed starting dates, week_day rules with a comparison other than '=' or twice, more than two daily_hour limits, waiting time ranges without an upper "
     "limit, models with no or several end events, dangling references of flows; for the discovery: granules that are not positive divisors of a day, thresholds outside [0,1], missing columns, "
     "mostly unknown events, tasks without resource, missing or unreadable files: each raises its documented error and no log, statistics or scenario is written. Valid neighbours are accepted.",
     ["inputs", "configurations"],
     "all single defects placed in otherwise valid generated scenarios, models, logs and parameters, and their valid neighbours",
     "tests sample one or two defects of some kinds in one fixed scenario; defects interact with what the rest of the file defines",
     ["prosimos/batch_processing_parser.py", "prosimos/batch_processing.py", "prosimos/case_attributes.py", "prosimos/event_attributes.py", "prosimos/global_attributes.py", "prosimos/all_attributes.py",
      "prosimos/control_flow_manager.py", "prosimos/simulation_engine.py", "bpdfr_discovery/log_parser.py"],
     [("validation of attributes and rules", "*Attributes.validate / BatchProcessingParser"), ("validation of models", "BPMNGraph.validate_model / parse_simulation_model"),
      ("validation of logs and parameters", "parse_and_validate_input")],
     "property-based testing: defect injection into generated valid inputs, against the list of documented errors",
     "One defect at a random place of a random valid input; expected error type and no output files; unmodified neighbours must be accepted.")

prop("C18", "Replaying a log recovers the decisions, enabling times and deviations",
     "Every case simulated from a model is replayed on that model completely; the flows counted at its decision gateways are exactly the decisions taken, so that the discovered branching "
     "probabilities are their shares in the log (0 where a gateway was never reached); every task is found enabled when the simulator wrote it was, and the waiting and processing times per task "
     "add up; and a sequence of tasks that is not the beginning of a run of the model is recognised as one that cannot be replayed.",
     ["programs", "histories"],
     "all block-structured models and all their runs and interleavings, and random sequences of tasks around them",
     "tests replay a dozen hand-made traces on three models; the interplay of nested blocks, interleavings and silent branches is not sampled",
     ["prosimos/control_flow_manager.py", "bpdfr_discovery/log_parser.py", "prosimos/execution_info.py"],
     [("token replay", "BPMNGraph.reply_trace and the functions it uses"), ("branching probabilities", "compute_branching_probability"), ("times per task", "compute_kpi_times_from_csv_log")],
     "property-based testing: simulated logs against the decisions reconstructed by the reference semantics; mutated traces against a membership oracle",
     "Simulated cases of random models; mutated traces; reference semantics of blocks decides what was decided and what is a run.")

prop("C19", "A scenario discovered from a log describes that log and can be simulated",
     "For every log of at least two cases and every valid choice of parameters, discovery writes a scenario whose parts refer to each other consistently (calendars, resources, tasks); it covers "
     "exactly the tasks of the log, each with at least one resource, and only resources that performed the task (or joint ones of it); calendars consist only of granules in which something was "
     "observed (all of them without a minimal confidence); durations and arrival distributions stay within (and, where fitted to one set of values, have the minimum, maximum and mean of) the "
     "observed values; the observed arrivals become their histogram; branching probabilities are the shares of the decisions taken; and the scenario can be simulated, giving runs of the model. "
     "It does not depend on the order or names of columns, unrelated columns and activities, the UTC offset or the week of the timestamps.",
     ["inputs", "programs", "configurations"],
     "all logs produced from block-structured models and scenarios, and all valid discovery parameters",
     "tests only check that one XES and one CSV log are accepted; the content of the discovered scenario is never compared with the log, nor simulated",
     ["bpdfr_discovery/log_parser.py", "prosimos/control_flow_manager.py", "prosimos/simulation_properties_parser.py", "prosimos/execution_info.py"],
     [("discovery", "preprocess_xes_log"), ("calendars and joint resources", "discover_resource_calendars, _max_disjoint_intervals, discover_arrival_calendar"),
      ("durations and arrivals", "discover_resource_task_duration_distribution, discover_arrival_time_distribution")],
     "property-based testing: round trip simulate-discover-simulate with every part recomputed from the log; metamorphic rewritings of the log",
     "CSV logs only (pm4py, needed to read XES, is not installed). Logs with a single case are outside: no interval between arrivals exists.")

prop("C21", "Gateways respect their execution limit and the warnings tell what happened",
     "No gateway with several outgoing flows is executed more often in one case than gateway_execution_limit (1000 if not given) allows: a case that needs one more execution stops there, with "
     "exactly one warning naming the case and the gateway; all the other cases are complete runs without such a warning. The warnings about usage name exactly the elements used (and "
     "the flows taken) in less than 1% or more than 100% of the cases, with the true numbers of uses and of cases. There is one warning for every decision in which all conditions of a gateway were "
     "false (naming the default path that was used, or that there is none) or more than one condition of an XOR gateway was true, one for every gateway with conditions on some of its flows only "
     "(naming the others) and one for every gateway with missing probabilities (naming the flows and the assigned values), and no other.",
     ["programs", "configurations"],
     "all block-structured models with loops, branching probabilities including endless loops, and limits",
     "no test uses the limit or reads a warning; the counts depend on every decision taken in every case",
     ["prosimos/control_flow_manager.py", "prosimos/simulation_execution_stats.py", "prosimos/warning_logger.py", "prosimos/simulation_engine.py"],
     [("limit", "BPMNGraph.is_gateway_execution_limit_exceeded in update_process_state"), ("usage", "SimulationExecutionStats"), ("conditions", "OutgoingFlowSelector, parse_gateway_conditions, parse_arrival_branching_probabilities"), ("warnings file", "run_simulation")],
     "property-based testing: every case followed along the model with counters per gateway; uses of elements and flows recomputed from the log by the reference semantics",
     "Exact for sequential models; with parallel and inclusive blocks the executions are bounded, not followed. Flows that were never taken are not expected in the warnings.")

prop("C23", "Distances between logs are earth mover's distances of their binned times",
     "absolute_hour_emd is the earth mover's distance between the start and end times of two logs in bins of the given size counted from the full hour of the first start, and trace_duration_emd the "
     "one between their cycle times in bins counted from the shortest; they are zero for a log and itself, symmetric, independent of the order of the rows, of UTC offsets and of moving both logs by "
     "whole hours, and a log moved by n hours is n hours away. read_and_preprocess_log keeps every row, ordered by time.",
     ["inputs"],
     "all pairs of logs, bin sizes, orders and offsets",
     "no test covers the metrics",
     ["bpdfr_discovery/emd_metric.py"],
     [("metrics", "absolute_hour_emd, trace_duration_emd"), ("reading", "read_and_preprocess_log")],
     "property-based testing: exact reference computation (rational area between the cumulative shares) and metamorphic relations on random pairs of logs",
     "Timestamps written in one format, as the simulator does.")

prop("C24", "A terminate end event ends its case at once, and only its case",
     "When the process model ends with a terminate end event, a case is over as soon as the first of its parallel or inclusive branches reaches that event: everything the case had enabled until then is "
     "executed (tasks in progress are finished), nothing that would be enabled later is, the other cases go on, and the simulation ends normally. With a plain end event, all the branches run to their ends.",
     ["programs", "schedules", "inputs"],
     "all models whose branches are merged without synchronisation before the end event, all durations and orders in which the branches arrive, all numbers of cases",
     "one test removes the tokens by hand; what happens to the other branches depends on the order of completion",
     ["prosimos/control_flow_manager.py", "prosimos/simulation_engine.py"],
     [("termination", "BPMNGraph.update_process_state, ProcessState.remove_all_tokens_on_terminate"), ("event loop", "SimBPMEnv.execute_enabled_event")],
     "property-based testing: generated models of racing branches; the log is matched with the branches and the earliest end",
     "Up to two levels of AND/OR splits, choices, events, contention and priority levels; an enabling exactly at the end may go either way.")

NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": PY + " tools/selfcheck.py",
        "checks": [{
            "property": p["pid"],
            "quick_cmd": "%s checks/%s.py" % (PY, p["pid"].lower()),
            "thorough_cmd": "%s checks/%s.py --tier thorough" % (PY, p["pid"].lower()),
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["note"],
        } for p in P],
        "not_applicable": [{"property": a, "reason": b} for a, b in NA],
        "notes": "All checks are property-based tests over generated inputs; see DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
