import json, os
T = {
"C01": ("seeded histories of source edits, clock granularities and runs; edits placed between the file operations of running extractions", "version model of the source directory"),
"C02": ("kill, torn write, I/O error, full disk, interrupt and power loss injected at operations of a run, followed by fault-free runs", "version model of the source directory"),
"C03": ("seeded interleaving of the file operations of 2-4 concurrent processes (random, lock step, priority), with kills and interrupts of one of them", "the same command simulated alone"),
"C04": ("SIGINT injected before/after any file operation or pool wait, or wherever the interpreter can take a signal in ocelot's code", "outcome, output tree and later runs against the model"),
"C05": ("seeded histories of runs in one process with failing, interrupted and nested functions and I/O faults", "log model built from events seen by the simulator"),
"C06": ("kill injected before, inside and after any operation of a run", "log records known to have been issued"),
"C07": ("generated functions, strategies and followed files; kill injected at any operation", "data states recorded between functions"),
"C08": ("seeded pool scheduling, worker counts, read errors, short reads and files changing during extraction", "version model of the source directory"),
"C09": ("seeded mixtures of entries and ages, concurrent runs, clock jumps, kills and I/O errors during cleanup", "set model of the output location"),
"C10": ("the same generated database under permuted listing order, hash seed, worker schedule, cache state and run history", "canonical comparison of final databases"),
"C11": ("generated functions, rows and histories under clock jumps, backwards and standing clocks", "parsed report against the events the simulator saw"),
"C12": ("errors, short writes and full disk injected at every kind of operation; functions that raise", "outcome against completeness of outputs and log"),
"C14": ("generated valid, invalid and cut files; read and write errors, short reads, interrupts, edits and other commands during validation", "validity known by construction of every file version"),
"C15": ("histories of commands in one process with failing functions, I/O errors and one CTRL-C at any operation or wherever the interpreter can take a signal", "process state before and after each command"),
"C13": ("every mutating operation of every simulated run judged, under faults, interrupts and odd names", "allowed set of paths, tree comparison"),
}
have = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "have.txt")).read().split()
json.dump({k: {"technique": "deterministic simulation with fault injection: " + T[k][0],
               "note": "Seeded search over simulated executions of the real code; oracle: %s. Holds on everything explored, no proof beyond it." % T[k][1]} for k in have},
          open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claimed.json"), "w"), indent=1)
