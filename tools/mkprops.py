"""Writes /verif/properties.jsonl (single place where the property texts are edited)."""
import json, os
W="src/ecalc_neqsim_wrapper/"; L="src/libecalc/"; C="src/ecalc_cli/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Shared result caches behave as one atomic bounded LRU under any threads",
 "Any interleaving of lookups, stores, clears, size and statistics requests from several threads on the shared caches, and of lookups/creations in the cache registry, gives the answers some one-at-a-time order of the same requests would give to a least-recently-used map. A cache never holds more entries than its limit, a limit of zero stores nothing, an entry is evicted only to make room and always the least recently used one, and hit, miss, eviction and size figures match the requests made since the last clear. Asking the registry for the same name always yields the one same cache, and no request blocks forever.",
 ["schedules","histories"],"every interleaving (line and bytecode granularity) of every bounded operation sequence of up to four threads, every cache size",
 "Tests call the cache from one thread with a handful of keys; they never choose an interleaving nor check a history against a sequential specification.",
 [W+"cache_service.py"],[("LRU map guarded by a re-entrant lock",W+"cache_service.py: LRUCache"),("named cache registry",W+"cache_service.py: CacheService")],
 ["return values of get/put/clear/len/stats"])

p("C02","Caching never changes a thermodynamic answer",
 "For every sequence of flash, liquid-removal, stream-creation and rate-conversion requests, from one or several threads, with any cache sizes including disabled ones and with individual requests failing or caches being cleared in between, every successful answer equals the answer a freshly started, cache-less service gives for that same request (up to the documented key rounding). A failed request leaves nothing behind that changes a later answer, and a cache size of zero, including one requested on the command line, really disables that cache.",
 ["histories","schedules","configurations","fault_sequences"],"all request histories, thread interleavings, cache sizes, backend failure points",
 "Tests with a real backend cannot run here and, where they can, compare a few requests in one order with default cache sizes.",
 [W+"fluid_service.py",W+"cache_service.py",W+"thermo.py",C+"commands/run.py",L+"process/fluid_stream/fluid_service.py"],
 [("flash and reference-fluid caches keyed by composition, model and state",W+"fluid_service.py: NeqSimFluidService"),("cloning remote fluids before changing their state",W+"thermo.py: NeqsimFluid")],
 ["properties returned by the fluid service"])

p("C03","At most one Java backend, always released, always recoverable",
 "However backend start-up, use, nested or concurrent start requests, exceptions, backend crashes, failed launches and shutdowns follow one another, at most one backend process started by eCalc is alive at a time, a scope configured to shut down leaves none alive, and no object living in an earlier backend process is ever used again. After a failed launch, crash or shutdown a new start succeeds and gives correct answers, a live backend is reused rather than restarted, using the service before a start or mixing the two backend kinds is refused, and configured memory and keep-alive settings are honoured.",
 ["schedules","histories","fault_sequences","crash_points"],"all sequences and thread interleavings of start/use/stop with launch failures, crashes and connection errors at any remote call",
 "Tests start one real backend once; no test can kill it at a chosen call, fail a launch, or interleave two threads' first use.",
 [W+"java_service.py",W+"fluid_service.py",W+"cache_service.py"],
 [("module-global service handle, context manager, shutdown",W+"java_service.py: NeqsimPy4JService/NeqsimJPypeService"),("singleton fluid service",W+"fluid_service.py: NeqSimFluidService.instance")],
 ["launch and gateway-shutdown calls seen by the simulated JVM"])

p("C04","Losing the thermodynamic backend is never reported as a result",
 "If the connection to the thermodynamic backend is lost or the backend process dies at any point of a model evaluation, the evaluation fails with an error and a failing exit status, or its results are identical to those of an undisturbed run. A lost backend is never turned into an infeasible, zero or otherwise different operating point, capacity or power figure.",
 ["fault_sequences","crash_points","inputs"],"a crash or connection error at every remote call of every model evaluation",
 "Tests never interrupt a backend; the conversion of bridge errors into domain errors is reached only by faults.",
 [W+"thermo.py",W+"exceptions.py",L+"domain/process/compressor/core/train/base.py",L+"process/process_solver/finders/shaft_speed_finder.py",L+"domain/process/entities/process_units/legacy_compressor/legacy_compressor.py",C+"main.py"],
 [("bridge errors mapped to domain errors",W+"thermo.py: set_new_pressure_and_*"),("solvers catching thermodynamic errors as infeasibility",L+"process/process_solver/finders/shaft_speed_finder.py")],
 ["exit status and written result files; values returned by train and solver evaluations"])

p("C05","A run that reports success has written every requested output completely",
 "If a command-line run ends with a success status, every requested output (CSV, JSON, intensity, run info, LTP/STP tables, flow diagram) exists with exactly the content an undisturbed run writes, whatever errors, short writes, full disk or interrupts the disk reports at any operation. If any requested output could not be written completely, or the model, its resources or the evaluation were in error, the run ends with a failing status.",
 ["fault_sequences","inputs","configurations"],"an I/O error of any kind at every file-system operation of a run, every combination of output options",
 "Tests write to a healthy temporary directory; no write, close or mkdir ever fails.",
 [C+"main.py",C+"commands/run.py",C+"commands/show.py",C+"io/output.py",L+"presentation/exporter/handlers/handler.py"],
 [("output writers",C+"io/output.py"),("table file handler",L+"presentation/exporter/handlers/handler.py: MultiFileHandler"),("exit status",C+"main.py: main")],
 ["exit status and files in the output folder"])

p("C06","Input that cannot be read is an error, never a different result",
 "If reading the model file, an included file or a time-series or facility resource fails, is cut short by the operating system's error, a file disappears before or between operations, or an input holds a zero-filled block, bytes that are not text, a value that cannot be read or a line with more values than headings, the run either fails with an error or produces exactly the result of an undisturbed run. Missing or unreadable data is never replaced by defaults, zeros or a partial resource.",
 ["fault_sequences","inputs"],"an error at every stat, open, read or close of every input file; files vanishing at any point; torn input files",
 "Tests read intact files from a healthy disk.",
 [C+"infrastructure/file_resource_service.py",L+"presentation/yaml/file_configuration_service.py",L+"infrastructure/file_io.py",L+"presentation/yaml/yaml_models/pyyaml_yaml_model.py",L+"presentation/yaml/model.py"],
 [("resource discovery and loading",C+"infrastructure/file_resource_service.py"),("CSV resource parsing",L+"infrastructure/file_io.py: read_csv/resource readers"),("include resolution",L+"presentation/yaml/yaml_models/pyyaml_yaml_model.py")],
 ["exit status and files in the output folder"])

p("C07","A killed run is fully repaired by simply running again",
 "If a run is killed at any instant, including in the middle of writing any file, running the same command again in the same folder succeeds and leaves exactly the output an undisturbed run leaves, regardless of what the killed run or an older version's larger files left behind. No run, killed or not, modifies an input file or writes outside its output and log folders.",
 ["crash_points","fault_sequences","histories"],"a crash before, during or after every file-system operation, several crashes in a row, any leftover files",
 "Tests never kill a run nor start one in a folder with leftovers.",
 [C+"commands/run.py",C+"io/output.py",L+"presentation/exporter/handlers/handler.py",C+"logger.py"],
 [("output writers overwrite in place",C+"io/output.py"),("output folder creation",C+"commands/run.py: validate_arguments")],
 ["files in the model, output and log folders after the rerun"])

p("C08","Output is a function of the model and its inputs only",
 "Running the same model with the same options gives byte-identical result files (run-time stamps in the run-info file excepted, generated node ids of the flow diagram up to renaming) whatever the hash seed, process id, clocks, time zone, working directory, path spelling, file times, folder listing order, random-number state, choice of backend bridge and log level; with other cache sizes or after other models were evaluated in the process the numbers agree within the rounding of cache keys. A run whose log destination fails either fails or gives the same files. No generated identifier, address, timestamp or set ordering leaks into results.",
 ["configurations","histories","fault_sequences"],"all environments: hash seeds, clocks (including jumps during the run), working directories, uuid and random streams, prior runs, log faults",
 "Tests run under one hash seed, one clock and a fresh state and compare with snapshots only after sorting and rounding.",
 [C+"commands/run.py",L+"presentation/json_result/mapper.py",L+"presentation/json_result/result/results.py",L+"presentation/exporter/infrastructure.py",L+"common/graph.py",L+"presentation/yaml/model.py",L+"infrastructure/file_utils.py"],
 [("result assembly and ordering",L+"presentation/json_result/mapper.py"),("graph traversal",L+"common/graph.py"),("generated ids",L+"presentation/yaml/yaml_models/*")],
 ["bytes of the result files"])

p("C09","A process solution does not depend on what was solved before",
 "Solving a process system for given inlet streams and target pressures gives the same configuration, outlet stream, success verdict and failure reason, whatever was solved with that system before, including infeasible solves and solves aborted by a backend failure, and in whatever order or interleaving solvers over separate systems run. Applying a returned configuration to a fresh identical system reproduces the reported outlet.",
 ["histories","fault_sequences","schedules"],"all sequences of solves on one system, with aborts at any flash, for every pressure-control strategy; interleaved solves of separate systems",
 "Tests solve once per freshly built system and need a backend that is not available here.",
 [L+"process/process_solver/solver.py",L+"process/process_solver/pipeline_section_solver.py",L+"process/process_solver/multi_pressure_solver.py",L+"process/process_solver/pressure_control",L+"process/process_solver/anti_surge",L+"process/shaft.py",L+"process/process_pipeline/process_pipeline.py"],
 [("mutable unit state (speed, recirculation, choke) shared between solves",L+"process/process_solver/solver.py"),("strategy reset",L+"process/process_solver/pressure_control")],
 ["solutions returned by the solvers"])

p("C10","A time step's compressor or pump result depends on that time step only",
 "Evaluating a compressor train, pump, turbine or sampled-data model for a set of operating points gives each point the result it has when evaluated alone on a fresh model, whatever the order, the batch it is part of, the points or maximum-rate queries evaluated before, and also when earlier evaluations were aborted by a backend failure. Re-evaluating the same points reproduces the same results. In a whole model, every component's energy use, validity and flags at a time step equal those of a model holding only that time step, unless a chart is generated from the input of all time steps.",
 ["histories","fault_sequences","inputs"],"all orders, batches and histories of evaluations and capacity queries, aborts at any flash",
 "Tests evaluate fixed batches once; state kept between time steps is invisible in a single pass and these tests need a backend not available here.",
 [L+"domain/process/compressor/core/train",L+"domain/process/compressor/core/sampled",L+"domain/process/pump",L+"domain/process/entities/process_units",L+"domain/infrastructure/energy_components/turbine"],
 [("per-train mutable shaft speed and recirculation state",L+"domain/process/compressor/core/train/base.py: CompressorTrainModel.evaluate"),("rate modifier",L+"domain/process/entities/process_units/rate_modifier/rate_modifier.py")],
 ["values returned by evaluate and maximum-rate queries"])

p("C11","Models loaded or evaluated in one process never influence each other",
 "Loading, validating and evaluating several models in one process, in any order or interleaving of threads, gives each model the outcome it has alone: its own included files, resources, settings and results. Evaluating a model again gives the same results, and reading with includes disabled refuses or ignores them whatever was read before.",
 ["schedules","histories","inputs"],"all interleavings of load/validate/evaluate steps of several models with equally named includes and resources",
 "Tests load one model per test; shared loader or class-level state only shows with two models alive at once.",
 [L+"presentation/yaml/yaml_models/pyyaml_yaml_model.py",L+"presentation/yaml/model.py",L+"presentation/yaml/mappers",L+"expression/expression.py"],
 [("YAML loader constructors registered per read",L+"presentation/yaml/yaml_models/pyyaml_yaml_model.py: YamlReader"),("model caches",L+"presentation/yaml/model.py: YamlModel")],
 ["validation outcome and results of each model"])

p("C12","A failed validation or evaluation stays failed and a retry is as good as new",
 "If validating or evaluating a model fails, whether because the model is in error or because a resource or the backend failed for a moment, no later call on that model object reports it as validated or returns results from the failed attempt. Once the cause has gone, validating and evaluating again gives the same outcome as a new model object.",
 ["histories","fault_sequences"],"failures at any resource access or backend call, followed by any sequence of retries",
 "Tests stop at the first error.",
 [L+"presentation/yaml/model.py",L+"presentation/yaml/domain/reference_service.py",L+"presentation/yaml/domain/time_series_collections.py"],
 [("validated flag and lazily built parts",L+"presentation/yaml/model.py: YamlModel.validate_for_run")],
 ["outcome of validate, evaluate and result calls"])

p("C13","Process solving always ends with an honest verdict, whatever the backend does",
 "For any inlet and target, with a backend that fails to converge, returns undefined numbers, refuses parts of the state space or jumps at the edge of a phase, at any calls, every solve and train evaluation ends within a bounded number of backend calls, by a result or an error. A result marked successful meets its target pressure within tolerance at an operating point inside the machine's limits with finite physical values; anything else is marked as failed.",
 ["fault_sequences","inputs"],"all backend failure patterns (by call or by region of state space), all inlet conditions and targets, every strategy",
 "Tests use a converging backend and a few targets; iteration limits and failure verdicts under partial failure are not reached.",
 [L+"process/process_solver",L+"domain/process/compressor/core/train",L+"common/numeric_methods.py",L+"process/fluid_stream/fluid_property_validation.py"],
 [("bounded root finding and maximisation",L+"common/numeric_methods.py; "+L+"process/process_solver/search_strategies.py"),("verdict of a solve",L+"process/process_solver/solver.py")],
 ["number of remote calls per solve; returned solution"])

p("C14","Corrupted or truncated uploads are refused or read exactly, never misread",
 "Reading an uploaded archive whose bytes were truncated, flipped, torn or delivered in arbitrary pieces either yields files with exactly the packed contents or raises an eCalc error; it never yields altered contents, never another kind of exception (except the operating system's own error for a failing stream or temporary disk). Every model and CSV file in an intact archive is returned whatever lies in the service's working directory, other files are reported, archives with duplicate paths are refused, and the main file is the one YAML file that is one, or an eCalc error.",
 ["fault_sequences","inputs"],"all truncation points, bit flips, short reads and read errors at any position of archive and stream reads",
 "Tests unpack a few intact archives.",
 [L+"infrastructure/file_io.py"],[("archive unpacking and validation",L+"infrastructure/file_io.py")],
 ["returned files and raised errors"])

p("C15","Runs at the same time do not disturb each other",
 "Command-line runs started at the same time on models in the same folder, with different output names or different output folders, each succeed and write exactly what they write alone, however their disk operations interleave, also when they share a not yet existing output folder or a log folder and when one of them is killed.",
 ["schedules","crash_points","configurations"],"all interleavings of the disk operations of several runs, a kill of any of them at any operation",
 "Tests start one run at a time in a folder of its own.",
 [C+"commands/run.py",C+"io/output.py",C+"main.py",L+"presentation/exporter/handlers/handler.py",C+"logger.py"],
 [("output folder creation",C+"commands/run.py: validate_arguments"),("output writers",C+"io/output.py")],
 ["exit status and output files of each run"])

p("C16","A shared feed is kept in full, and no train keeps more than it can handle",
 "A feed shared between trains by rate fractions and overflows reaches them in full: each train gets its own fraction plus what overflows into it, less what it passes on; a train with an overflow passes on exactly what exceeds its capacity and keeps only a rate it can handle; of several settings the first that every train can handle is used, else the last; whatever the order of trains and overflows, the capacities and backend failures.",
 ["inputs","configurations","fault_sequences","histories"],"all fractions, acyclic overflows in any order, train capacities, priorities and backend failures at any point",
 "Tests share a feed between two trains of fixed capacity, with one overflow from the first to the second.",
 [L+"process/stream_distribution/common_stream_distribution.py",L+"process/stream_distribution/priorities_stream_distribution.py",L+"process/process_solver/feasibility_solver.py",L+"presentation/yaml/mappers/process_simulation_mapper.py"],
 [("rates with overflow",L+"process/stream_distribution/common_stream_distribution.py: _adjust_for_overflow"),("capacity search",L+"process/process_solver/feasibility_solver.py: FeasibilitySolver.get_excess_rate"),("choice of setting",L+"process/stream_distribution/priorities_stream_distribution.py: find_first_valid")],
 ["streams given to the trains"])

# --- guarantees that are pure functions of their input: stated, not claimed
def na(id,title,statement,files,mech):
    p(id,title,statement,["inputs"],"all inputs","A pure function of its input; tests sample a few inputs.",files,mech)
na("C50","Aggregation and resampling conserve totals","Sums over consumers, installations and the asset, and volumes after any resampling, equal the sums of the parts.",[L+"common/utils/rates.py",L+"presentation/json_result"],[("time-series algebra",L+"common/utils/rates.py")])
na("C51","Emissions equal fuel burned times the emission factor","Reported emissions of every period equal fuel consumption times the factor valid in that period, and nothing is counted twice.",[L+"domain/emission",L+"domain/infrastructure/emitters"],[("emission calculation",L+"domain")])
na("C52","Expressions evaluate as documented arithmetic","Every expression evaluates elementwise with the documented precedence, comparison and undefined-value rules.",[L+"expression"],[("expression evaluator",L+"expression/expression_evaluator.py")])
na("C53","Period algebra partitions time","Periods of every model and frequency are disjoint, ordered and cover exactly the requested span.",[L+"common/time_utils.py"],[("periods",L+"common/time_utils.py")])
na("C54","Chart interpolation stays inside the chart","Head, efficiency and limits interpolated from any valid chart lie within the chart's envelope and reproduce its points.",[L+"domain/process/value_objects/chart"],[("charts",L+"domain/process/value_objects/chart")])
na("C55","Unit conversion is exact and reversible","Converting any value to another unit and back gives the value.",[L+"common/units.py"],[("units",L+"common/units.py")])
na("C56","Validation accepts exactly the documented models","Every model that violates the documented schema is refused with the location of the error, and every other model is accepted.",[L+"presentation/yaml/yaml_types"],[("schema",L+"presentation/yaml/yaml_types")])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
