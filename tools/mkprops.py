"""Writes properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
FS, IO, EX, MO = "ocelot/filesystem.py", "ocelot/io/__init__.py", "ocelot/io/extract_ecospold2.py", "ocelot/model.py"
LG, RP, CL, RS = "ocelot/logger.py", "ocelot/report.py", "ocelot/io/cleanup.py", "ocelot/results.py"

p("C01", "Cached extraction always reflects the current source files",
  "Whatever happened to a source directory since it was last extracted - files edited, added, removed, renamed, replaced by copies that keep their old timestamps, the directory swapped or a link to it re-pointed, also while an extraction was still running - a run that uses the cache works on exactly the datasets that extracting the directory's present files gives. A run told not to use the cache always reads the files themselves. The clock is assumed not to run backwards, and a directory not to be swapped away and back during a single extraction; timestamps may be as coarse as two seconds.",
  ["histories", "schedules", "configurations"], "every history of source changes and runs, every placement of a change inside a running extraction, every timestamp granularity",
  "The tests cache one dictionary and then edit one file half a second later; they reach no preserved timestamp, no removed or renamed file, no swapped directory, no change during an extraction and no coarse timestamps.",
  [FS, IO, EX], [("freshness test", FS + ":check_cache_directory"), ("cache key", FS + ":get_cache_filepath_for_data_path"), ("cache writer", FS + ":cache_data"), ("cache-or-extract decision", IO + ":extract_directory")],
  [("cache file", "pickled list of extracted datasets, one file per source directory", FS + ":get_cache_filepath_for_data_path")],
  ["value returned by ocelot.io.extract_directory / data given to the first transformation function"])
p("C02", "No crash or I/O fault leaves a cache that breaks or corrupts a later run",
  "If a run is killed, interrupted, loses power, or meets a full disk or I/O error at any point while it extracts data or writes the extraction cache, every later run on the same source still succeeds once the fault is gone and works on exactly the datasets in the source files. A run never returns datasets from a partially written cache.",
  ["crash_points", "fault_sequences", "histories"], "every crash point, torn or lost write, write error and interrupt inside a run, in every history of runs",
  "The tests write the cache once, undisturbed; no test ever stops a writer half way.",
  [FS, IO, EX], [("cache writer", FS + ":cache_data"), ("freshness test", FS + ":check_cache_directory"), ("cache reader", FS + ":get_from_cache")],
  [("cache file", "only durable state that outlives a run and feeds the next", FS + ":get_cache_filepath_for_data_path")],
  ["outcome and data of the runs after the fault"])
p("C03", "Concurrent runs do not disturb one another",
  "Any number of runs started at the same time, on the same or on different source directories, sharing the data, cache and output directories (even when these do not exist yet), all complete - also when one of them is killed or interrupted meanwhile - and each returns the same datasets and leaves the same output files as it does when it runs alone. Each run writes its results into a fresh directory of its own directly inside the configured output location, which is the one given in the environment whenever that is set.",
  ["schedules", "configurations"], "every interleaving of the file operations of concurrently running processes, from any initial state of the shared directories",
  "The tests run one thing at a time; no test has two runs alive at once.",
  [FS, MO, IO, LG, RP], [("directory creation", FS + ":create_dir"), ("output location", FS + ":get_output_directory"), ("run directory", FS + ":OutputDir"), ("cache writer and reader", FS + ":cache_data, get_from_cache")],
  None, ["outcome of each run", "tree under the output directory", "cache contents"])
p("C04", "CTRL-C at any instant ends the run and leaves no partial output behind",
  "Interrupting a run with CTRL-C at any instant ends it - by exit status 1 or by the interrupt reaching the caller - without being swallowed or turned into another error. The interrupted run's output directory no longer exists (unless its results and report had already been written completely; an empty directory may remain if the interrupt hit while it was being created), nothing that existed before the run started is touched, and later runs work normally.",
  ["crash_points", "schedules", "histories"], "every instant of a run - any file operation and any line of the program - at which the interrupt can arrive, including while worker processes are extracting",
  "No test interrupts anything.",
  [MO, EX, FS, RS, "ocelot/utils.py", "ocelot/bin/ocelot_cli.py"], [("interrupt handler", MO + ":system_model"), ("pool interrupt handling", EX + ":extract_ecospold2_directory"), ("command line handler", "ocelot/bin/ocelot_cli.py:main")],
  None, ["how the run ended", "tree under the output directory", "outcome of later runs"])
p("C05", "Each run's logs hold exactly that run's events, in order",
  "After any sequence of runs in one process - successful, failing or interrupted, with nested lists and collections of transformation functions - each run's log consists of exactly that run's events in the order they happened: one start record with the run's identity and dataset count, for every function a start record, the rows it logged and an end record with the right index and dataset counts, and an end record only if the run completed. No run writes into the log, detailed log or output directory of another run, and nothing is added to a run's log after that run has ended.",
  ["histories", "programs", "fault_sequences"], "every sequence of runs in one process, every nesting of transformation functions, every function at which a run fails or is interrupted",
  "The logger tests format single records; no test performs two runs in one process or a run with nested functions.",
  [LG, MO], [("log set-up", LG + ":create_log, create_detailed_log"), ("function start and end records", MO + ":apply_transformation"), ("run start and end records", MO + ":system_model")],
  [("logging handlers", "process-global list of open log files", LG)], ["report.log.json", "detailed.log.json"])
p("C06", "What was logged before a kill is on disk",
  "If a run is killed without warning at any instant, the log files in its output directory contain a complete record of every event logged up to that instant, in order, as whole lines; at most the one record being written at that instant may be missing or cut short.",
  ["crash_points"], "every kill point inside a run",
  "No test kills a run.",
  [LG, MO], [("unbuffered log records", LG + ":create_log, create_detailed_log")], None, ["report.log.json and detailed.log.json after the kill"])
p("C07", "Saved results are the requested snapshots, complete once announced",
  "For every save strategy and followed file, a completed run's output directory holds exactly one intermediate result for each function number the strategy selects, each equal to the data as it was right after that function, the followed datasets after each function they exist at, and final results equal to the returned data. At any crash point, a function logged as finished already has its requested snapshots complete and readable on disk, and a run logged as finished has its final results complete.",
  ["crash_points", "programs", "configurations"], "every configuration of functions (also ones that change the data in place), every strategy, every kill point",
  "The tests evaluate the strategy object alone on a few numbers; no test looks at saved files or at a run that stops half way.",
  [MO, FS, RS], [("snapshot before end record", MO + ":apply_transformation"), ("snapshot writers", FS + ":save_intermediate_result, save_specific_dataset"), ("strategy", RS + ":SaveStrategy")],
  None, ["pickle files in the output directory against the log"])
p("C08", "Extraction is complete and exact under any scheduling and read faults",
  "Extracting a directory yields the datasets of every source file exactly once, in the same order for any number of worker processes, with or without worker processes, however their work is scheduled. If any file cannot be read completely - read error, file vanished, file truncated, worker failing - the extraction raises an error: it never returns or caches a partial, duplicated or altered set of datasets. (A directory without source files may give an error or an empty list; a worker process killed from outside is not covered, because the standard library's pool waits for it.)",
  ["schedules", "fault_sequences", "configurations"], "every assignment and completion order of pool tasks, every worker count, every read fault (errors, short reads, vanished or cut files)",
  "The tests extract single elements in one process; the pool is never exercised with failures or different schedules.",
  [EX, IO], [("pool extraction", EX + ":extract_ecospold2_directory"), ("file parsing", EX + ":generic_extractor")], None, ["value or exception of ocelot.io.extract_directory"])
p("C09", "Cleanup deletes all and only the model runs older than one week",
  "The cleanup command deletes every model run more than one week old and nothing else: never a younger run (age counts from the last time the run directory itself was changed on disk, so a run that is still writing files or was restored from a backup within the week is kept), never a file, link or directory in the output location that is not a model run, never anything outside it, also not through links. This holds for any clock value, while runs start, write, finish or are interrupted, while another cleanup works on the same location, and when an earlier cleanup was killed, interrupted or met an I/O error half way: later cleanups still work, and what it left of old runs disappears at the latest when it is a week old.",
  ["schedules", "crash_points", "histories", "configurations"], "every mixture of entries and ages, every clock value and interleaving with running models, every kill point",
  "Cleanup has no test at all.",
  [CL, FS], [("age test and deletion", CL + ":cleanup_data_directory")], None, ["tree under the output location before and after"])
p("C10", "Same input data gives the same linked database",
  "Running a system model on the same dataset files gives the same final database - datasets, exchanges, links and amounts, up to the order of lists, floating point rounding and freshly generated identifiers - whatever order the file system lists the files in, whatever the interpreter's hash seed, number of worker processes and their scheduling, whether the data came from the cache, and whatever runs the process did before.",
  ["schedules", "configurations", "histories", "inputs"], "every listing order, hash seed, worker schedule, cache state and run history, for generated databases under the cut-off and consequential models",
  "No test runs a whole system model, let alone twice under different orders.",
  [EX, "ocelot/transformations", "ocelot/configuration.py"], [("listing order", EX + ":extract_ecospold2_directory"), ("linking", "ocelot/transformations/locations"), ("allocation", "ocelot/transformations/cutoff"), ("formula repair", "ocelot/transformations/parameterization/python_compatibility.py")],
  None, ["data returned by ocelot.system_model"])
p("C11", "The HTML report shows the whole run",
  "The report of a completed run shows, in the order they ran, every transformation function of that run with its name, description, dataset count, table title and columns and each row it logged (names and table cells literally, list rows as HTML), no row under another function, and the run's identity and input count - for any configuration, any rows and any behaviour of the system clock (jumps forwards or backwards, standing still). The report and the assets it refers to lie complete in the run's output directory, and generating it again from the same log gives the same report.",
  ["programs", "configurations", "histories"], "every configuration, logged rows, clock behaviour and earlier runs in the same process",
  "The report module has no test.",
  [RP, LG, MO], [("log replay", RP + ":HTMLReport.handle_line"), ("rendering", RP + ":HTMLReport.write_page, create_assets_directory")], None, ["report.html and assets in the output directory"])
p("C12", "An I/O failure is never reported as success",
  "If reading the source data, creating the output directory, or writing intermediate, final or followed results or the report fails - disk full, I/O error, permission denied, short write - the run ends with an error and does not return normally, unless everything it was asked to produce is nevertheless complete and correct. An error raised by a transformation function reaches the caller unchanged. A failed run's log never claims that a function finished which failed or whose results could not be saved, nor that the run finished although a function or the final results failed.",
  ["fault_sequences", "crash_points"], "every failing system call at every point of a run (failures of the log writes themselves are outside)",
  "No test injects an I/O error.",
  [MO, FS, RP, EX, IO], [("error propagation", MO + ":system_model"), ("writers", FS), ("report writer", RP)], None, ["outcome of the run against the output directory and log"])
p("C13", "A run writes only in its own output directory and the cache",
  "A model run, successful or failing, creates, changes, renames or deletes nothing outside its own output directory, the extraction cache and the directories that contain them. In particular the source files and other runs' output directories are never modified, and validating a source directory reads it without using or changing the cache.",
  ["histories", "fault_sequences", "configurations"], "every run, configuration, followed file name, history and fault: every mutating system call is judged",
  "No test observes the file system around a run.",
  [MO, FS, RP, LG, EX, "ocelot/io/validate_ecospold2.py"], [("run directory", FS + ":OutputDir"), ("cache location", FS + ":get_cache_filepath_for_data_path"), ("snapshot names", FS + ":save_specific_dataset, safe_filename")],
  None, ["every mutating file operation seen by the simulator"])

p("C14", "The verdict of the validation commands is about the files as they are",
  "The commands that validate a source directory - against the internal format (validate) and against an ecospold2 schema (xsd) - report every dataset, respectively file, that is not valid and no other, and say that there are no errors only if every dataset file of the directory was read whole and is valid. This holds whatever was extracted, cached or validated before and changed since, in whatever order the directory lists its files, for any number of worker processes and with other commands running on the same files. A file that cannot be read or parsed, or an error log that cannot be written, ends the command with an error. The error log holds the findings of the last such validation only, and neither command uses the extraction cache.",
  ["histories", "schedules", "fault_sequences", "inputs"], "every mixture of valid, invalid and cut files, every history of changes and extractions, every read or write fault, every schedule of the worker processes",
  "No test runs either command; tests of the internal format look at single datasets.",
  ["ocelot/io/validate_ecospold2.py", IO, EX, "ocelot/io/validate_internal.py", "ocelot/bin/ocelot_cli.py"],
  [("schema validation", "ocelot/io/validate_ecospold2.py:validate_directory_against_xsd"), ("internal validation", "ocelot/io/validate_ecospold2.py:validate_directory"), ("internal format", "ocelot/io/validate_internal.py:dataset_schema")],
  [("error log", "ocelot-validation-errors.log in the working directory", "ocelot/io/validate_ecospold2.py:validate_directory")],
  ["printed verdict, error log and outcome of the command"])
p("C15", "A command that has ended leaves nothing behind in its process",
  "However a model run, extraction, validation or cleanup ends - normally, by a failing transformation function, a missing or malformed source file, an I/O error or CTRL-C - afterwards the process that called it holds no file of that command open and no worker processes of it, and has the signal handling, working directory, environment variables, file creation mask, standard streams, interpreter-wide settings (locale, time zone, recursion and resource limits, module path, exception hook) and logging state it had before; the configuration object it was given and the named configurations hold the same functions in the same order. So any number of commands can follow one another in one process.",
  ["histories", "fault_sequences", "crash_points"], "every history of commands in a process, every I/O fault and a CTRL-C at any instant of them",
  "A leaked file, worker or changed setting is invisible in the one run a test makes, and most leaks need a failure at a particular point.",
  [MO, LG, EX, FS, RP, "ocelot/collection.py"], [("log setup", LG + ":create_log"), ("end of a run", MO + ":system_model"), ("worker pool", EX + ":extract_ecospold2_directory"), ("configuration", "ocelot/collection.py:unwrap_functions")],
  [("process state", "open file descriptors, live pools, signal handlers, cwd, environment, loggers, configurations", MO + ":system_model")],
  ["state of the calling process before and after each command"])

# ---- pure functions of their input: stated because they matter, not addressable by this technique
T = "ocelot/transformations/"
def na(id, title, statement, why, files, mech):
    p(id, title, statement, ["inputs"], "every valid input database", why, files, mech)
UN = "The unit tests settle a handful of hand-made datasets; the claim is about every database."
na("C20", "Allocation conserves exchanges and follows economic value", "Splitting a multi-output dataset gives one dataset per allocatable product whose shares sum to one and follow price times amount (or the true-value property where it applies), and whose scaled exchanges sum to the original exchanges.", UN, [T + "cutoff/economic.py", T + "cutoff/allocation.py"], [("allocation factors", T + "cutoff/economic.py")])
na("C21", "Every allocated dataset has one reference product", "After allocation every dataset in the database has exactly one reference product with a nonzero amount, normalised to one unit at the end of the model.", UN, [T + "cutoff/allocation.py", T + "cleanup.py"], [("allocation chooser", T + "cutoff/allocation.py"), ("normalisation", T + "utils.py")])
na("C22", "Market inputs follow suppliers' production volumes", "The inputs of every market are the producers inside its geography, in shares proportional to production volume that sum to the market's output, and each producer supplies each market at most once.", UN, [T + "locations/linking.py", T + "locations/markets.py"], [("supplier shares", T + "locations/markets.py")])
na("C23", "Links are closed and codes unique", "In the final database every technosphere input refers to an existing dataset that produces the named product in the same unit, and no two datasets share a code.", UN, [T + "locations/linking.py", T + "identifying.py"], [("link check", T + "locations/linking.py"), ("codes", T + "identifying.py")])
na("C24", "Rest-of-world means exactly the world minus the named regions", "A rest-of-world dataset covers precisely the territory not covered by its named siblings, and market groups nest without overlap.", UN, [T + "locations/_topology.py", T + "locations/rest_of_world.py", T + "locations/market_groups.py"], [("topology", T + "locations/_topology.py")])
na("C25", "Recalculated amounts satisfy their formulas", "After recalculation every amount with a formula equals the value of that formula under the dataset's other variables, and a formula that cannot be evaluated is reported.", UN, [T + "parameterization"], [("recalculation", T + "parameterization/recalculation.py")])
na("C26", "Formula translation keeps meaning", "Rewriting an ecospold formula to be evaluable in Python never changes its numeric meaning.", UN, [T + "parameterization/python_compatibility.py"], [("translation", T + "parameterization/python_compatibility.py")])
na("C27", "Rescaling keeps uncertainty consistent", "Scaling an exchange by a factor scales every parameter of its uncertainty distribution so that it describes the scaled quantity.", UN, [T + "uncertainty", T + "utils.py"], [("distributions", T + "uncertainty/distributions.py")])
na("C28", "Extraction keeps every documented field of a dataset file", "Every field of the internal data format is taken unaltered from the corresponding field of the dataset file.", UN, [EX, "ocelot/io/ecospold2_meta.py"], [("field extraction", EX)])
na("C29", "Invalid data is refused with the documented error", "A database that breaks a stated precondition of a transformation function makes that function raise its documented error rather than produce a result.", UN, [T + "validation.py", T + "cutoff/validation.py", "ocelot/errors.py"], [("validators", T + "validation.py")])
na("C30", "Waste and recycling accounting follows the cut-off rules", "Waste treatment burdens stay with the waste producer, recyclable by-products leave burden-free as recycled content, and recycled content is linked to its consumers.", UN, [T + "cutoff/wastes.py"], [("waste handling", T + "cutoff/wastes.py")])
na("C31", "Consequential linking uses only unconstrained suppliers", "In the consequential model market inputs come only from the most modern unconstrained technologies and constrained by-products displace their marginal production.", UN, [T + "consequential"], [("technology choice", T + "consequential/market_linking.py")])
na("C32", "Internal validation accepts exactly well-formed datasets", "The internal dataset schema accepts exactly the datasets that meet the documented internal format.", UN, ["ocelot/io/validate_internal.py", "ocelot/io/validate_ecospold2.py"], [("schema", "ocelot/io/validate_internal.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P: assert len(x["title"]) <= 80, x["id"]
print(len(P))
