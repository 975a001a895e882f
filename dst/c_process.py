"""C15: a command that has ended leaves nothing behind in its process."""
import copy

import common as K
from c_runs import ENVS, RunWorld, follow_name, run_cmd
from sim import NSEC


class C15World(RunWorld):
    def after_phase(self, i, st, ph):
        if not self.progress(i, ph):
            return
        for nd in st["nodes"]:
            for k, (c, r) in enumerate(zip(nd["cmds"], ph.results[nd["id"]])):
                for what, (a, b) in sorted((r.get("audit") or {}).items()):
                    if isinstance(a, list) and isinstance(b, list):
                        a, b = list(a), list(b)
                        for x in list(a):
                            if x in b:
                                a.remove(x); b.remove(x)
                        if what == "open files":
                            b = [x for x in b if not self.barely(ph, nd["id"], x)]
                            if not b:
                                continue            # an earlier file was closed
                    fired = [f for f in ph.fired if self.base(f[0]) == nd["id"]]
                    self.bad("left behind: " + what, "phase %d %s: after command %d (%s %s, ended with %s)%s the process has %s %r where it had %r before" % (
                        i, nd["id"], k, c["do"], c.get("src", ""), r["st"] + (" " + r.get("type", "") if r["st"] == "exc" else ""),
                        " in which " + " ".join(map(str, fired[0][2:5])) + " was hit" if fired else "", what, b, a))
                    return


    def barely(self, ph, node, path):
        """Whether the file was opened in a process hit by CTRL-C and nothing was done with it any more: between the system
        call and the statement that takes its result no program can keep hold of a bare file descriptor."""
        if not any(f[0] == node and f[4].startswith(("int", "line-int")) for f in ph.fired):
            return False
        path = path[:-10] if path.endswith(" (deleted)") else path
        ops = [e[2] for e in ph.events if e[1] == node and e[3] == path]
        if "open" not in ops:
            return False
        return not set(ops[len(ops) - ops[::-1].index("open"):]) & {"read", "write", "pread", "pwrite", "writev", "fsync", "fdatasync", "ftruncate", "lseek"}


class C15(K.BaseCheck):
    world = C15World
    share, byname, cap = 0.1, 0.6, 5
    KINDS = ["fail", "fail", "fail", "full", "limit", "int", "int_after"]

    def base(self, rng):
        dirs = K.sources(rng, 1, 1, 3)
        plan = {"seed": rng.randrange(2 ** 40), "clock": K.clock(rng), "dirs": dirs, "gap": 3 * NSEC, "env": rng.choice(ENVS), "steps": []}
        K.ages(rng, plan)
        cmds = []
        for k in range(rng.randint(2, 5)):
            x = rng.random()
            if x < 0.55:
                cfg = K.config(rng, 1, 4, start=k * 10)
                if rng.random() < 0.35:
                    f = rng.choice(K.cfg_functions(cfg))
                    f["raise"] = rng.choice(["ValueError", "KeyError", "WorkloadError", "SystemExit", "StopIteration", "MemoryError", "RuntimeError", "OSError", "KeyboardInterrupt"])
                    f["form"] = "plain"
                c = run_cmd(rng, "s0", cfg, follow_name(rng, dirs, "s0"))
                c["want"] = False
                if rng.random() < 0.2:
                    c["show"] = True
            elif x < 0.75:
                c = {"do": "extract", "src": "s0", "use_cache": rng.random() < 0.6, "use_mp": rng.random() < 0.7}
            elif x < 0.85:
                c = {"do": "validate", "src": "s0", "cli": rng.random() < 0.4}
            elif x < 0.9:
                c = {"do": "cleanup", "cli": rng.random() < 0.3}
            else:
                c = {"do": "extract", "src": "missing", "use_cache": rng.random() < 0.5}
            cmds.append(c)
        plan["steps"].append({"t": "phase", "tag": "target", "order": rng.randrange(2), "sched": K.schedule(rng), "nodes": [
            {"id": "n0", "cpus": rng.randint(1, 3), "cwd": "cwd", "cmds": cmds, "audit": True, "umask": rng.choice([0o022, 0o022, 0o002, 0o077, 0])}]})
        return plan

    def explore(self, rng, tier):
        plan = self.draw(rng)
        if rng.random() < 0.3 and "dbs" not in plan:
            plan["dirs"]["s0"]["cut.spold"] = 1
            plan["steps"].insert(0, {"t": "edit", "edit": {"e": "cut", "d": "s0", "f": "cut.spold", "pc": 60}})
        res = yield plan
        by = {}
        for e in res["phases"][0].events:
            by.setdefault(e[1], []).append(e)
        cand = [(n, k, e) for n, es in by.items() for k, e in enumerate(es) if e[2] not in ("cmd", "start")]
        t = len(plan["steps"]) - 1
        points = {}
        real = "dbs" in plan
        how = "int_call" if real else "int_line"
        for _ in range(8 if tier == "quick" else 24):
            p = copy.deepcopy(plan)
            if rng.random() < 0.25 and "KeyboardInterrupt" not in str(p):
                k = rng.randrange(len(p["steps"][t]["nodes"][0]["cmds"]))
                if k not in points:
                    q = copy.deepcopy(plan)
                    q["steps"][t]["nodes"][0]["cmds"][k][how] = None if real else -1
                    r2 = yield q
                    points[k] = (r2["phases"][0].results["n0"][k].get("lines") or ({"nowhere": 1} if real else 100))
                p["steps"][t]["nodes"][0]["cmds"][k][how] = K.call_point(rng, points[k]) if real else rng.randrange(points[k])
            else:
                faults = {}
                once = "KeyboardInterrupt" not in str(p)        # one CTRL-C per execution
                for _ in range(rng.choice([1, 1, 2, 3])):
                    n, k, e = rng.choice(cand)
                    f = K.fault_for(rng, e, [x for x in self.KINDS if not (x.startswith("int") and ("." in n or not once))])
                    if f:
                        once = once and not f[0].startswith("int")
                        faults.setdefault(n, {})[str(k)] = f
                p["steps"][t]["faults"] = faults
            yield p
