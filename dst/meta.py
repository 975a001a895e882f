"""Text parts of the evidence files."""
REAL = ["all ocelot code from /repo's working tree", "CPython, pickle, logging, shutil, tempfile, appdirs", "lxml parser", "jinja2, docutils", "real files on a scratch tmpfs", "real forked processes"]
STUB = ["process scheduling (lock-step, seeded)", "clocks, sleep, random bytes, process ids", "file timestamps and their granularity", "directory listing order",
        "multiprocessing.Pool task distribution (workers are real forks running real code)", "web browser", "terminal output (discarded)"]
META = {}


def m(prop, rule, assume=(), nontrivial=None):
    META[prop] = {"rule": rule, "assume": list(assume), "real": REAL, "stub": STUB}
    if nontrivial:
        META[prop]["nontrivial"] = nontrivial


m("C01", "Each seed gives a history of runs and source edits (edits also inside running extractions), then moved copies of the in-run edits.",
  ["the clock does not run backwards", "timestamps at most 2 s coarse", "a change updates mtime or ctime as Linux file systems do"])
m("C02", "Each seed gives a history with one target run; a clean execution profiles its operations, then variants inject kills, torn writes, I/O errors, full disk, interrupts and power loss, biased to the cache write.",
  ["un-fsynced file contents may be lost or cut at power loss; directory operations survive in order"])
m("C03", "Each seed gives 2-4 processes (1-2 runs each, shared or different sources and output locations, directories present or not, stale cache or none) and several schedules of them: random with few or many switches, lock step, priority with few change points; in some one process is killed or interrupted. Every undisturbed run is compared with the same command run alone in a fresh world. In about 5% of the seeds the functions are those of the real system model, on a generated database of linked ecospold2 files.",
  ["file operations are atomic steps; what lies between two of them runs without interleaving (processes share nothing but files)"])
m("C04", "Each seed gives a history with one target run; variants deliver SIGINT before or after a file operation, pool wait or yield of its profile, or at a point in ocelot's code (with the real system model: also in the libraries it calls) where the interpreter can take a signal; later runs follow in the same and in a new process. In about 12% of the seeds the functions are those of the real system model, on a generated database of linked ecospold2 files.",
  ["one interrupt per run (a second CTRL-C during the deletion is outside)", "the signal reaches the main process; pool workers are ended with it"])
m("C05", "Each seed gives 1-2 processes with 2-4 runs each: nested configurations, functions that fail in every kind of error or are interrupted, log calls between runs; variants move I/O errors and interrupts over their operations. In about 12% of the seeds the functions are those of the real system model, on a generated database of linked ecospold2 files.",
  ["failures of the log writes themselves are outside"])
m("C06", "Each seed gives a target run whose profile is taken, then kills before, after or in the middle of its operations (biased to log writes). In about 6% of the seeds the functions are those of the real system model, on a generated database of linked ecospold2 files.",
  ["a kill ends the process, not the machine: written bytes survive"])
m("C07", "Each seed gives a target run with a generated configuration, save strategy and followed file; then kills at its operations, biased to snapshot writes. In about 8% of the seeds the functions are those of the real system model, on a generated database of linked ecospold2 files.",
  ["a kill ends the process, not the machine: written bytes survive"])
m("C08", "Each seed gives a directory extracted under several worker counts and pool schedules, then variants with read faults, short reads and files changed during extraction.",
  ["a killed pool worker is outside (the standard library's pool waits for ever)"])
m("C09", "Each seed gives an output location with runs and look-alikes of many ages (dense around one week), real runs at various times, a cleanup concurrent with starting, failing and interrupted runs, later cleanups; variants move kills, interrupts, I/O errors and clock jumps over it.",
  ["not two cleanups at the same time"])
m("C10", "Each seed gives a generated database and one reference execution; variants change listing order, hash seed, worker count and schedule, cache state and earlier runs in the process, and their final databases are compared.",
  ["amounts are compared up to rounding", "databases from the generator's grammar"])
m("C11", "Each seed gives processes with 1-3 runs of generated configurations (names, descriptions, rows with markup), clock jumps, standing clocks; reports are parsed and compared with what the functions are known to have done, then generated again by another process. In about 12% of the seeds the functions are those of the real system model, on a generated database of linked ecospold2 files.",
  ["list rows are HTML by documentation, so they are compared as rendered text"])
m("C12", "Each seed gives a target run whose profile is taken, then 1-2 errors, short transfers or a full disk at its operations (biased to writes), or a function that raises. In about 6% of the seeds the functions are those of the real system model, on a generated database of linked ecospold2 files.",
  ["failures of the log writes themselves are outside"])
m("C13", "Each seed gives runs, extractions and validations in 1-2 processes from odd working directories, with odd followed names, failing functions and faults; every mutating operation is judged. In about 8% of the seeds the functions are those of the real system model, on a generated database of linked ecospold2 files.",
  ["the cache location and its parent directories are allowed targets", "the documented fallback output location is allowed"])
m("C14", "Each seed gives directories of valid, invalid and mixed files, 1-2 processes with validations and extractions, edits between and during them; variants move read and write errors, short reads, full disks, interrupts and edits over the operations (the schema files are in the simulated world too).",
  ["two validations at the same time use different working directories"])
m("C15", "Each seed gives one process with 2-5 commands (runs with failing functions, extractions, validations, cleanups, missing or cut sources); the process state is compared before and after each; variants add I/O errors, short transfers, a full disk and at most one CTRL-C. In about 10% of the seeds the functions are those of the real system model, on a generated database of linked ecospold2 files.",
  ["one CTRL-C per execution"])
