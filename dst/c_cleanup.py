"""C09: cleanup deletes all and only the model runs older than one week."""
import copy
import hashlib
import os

import common as K
from c_runs import ENVS, RunWorld, follow_name, run_cmd
from sim import NSEC
from world import DAY, RUNID

WEEK = 7 * DAY


def hexname(x):
    return hashlib.md5(str(x).encode()).hexdigest()


class C09World(RunWorld):
    quiet = "/assets"

    def other_step(self, i, st):
        if st["t"] == "fill":
            self.fill(st)
        else:
            RunWorld.other_step(self, i, st)

    def root_of(self, st):
        if st.get("default"):
            return "data/Ocelot/model-runs"
        return self.node_root({"cwd": "cwd"})

    def fill(self, st):
        s = self.sim
        root = self.root_of(st)
        s.u_mkdir(root)
        s.u_mkdir("elsewhere/keep"); s.u_write("elsewhere/keep/file", b"precious"); s.u_write("elsewhere/other", b"precious")
        for e in st["entries"]:
            name = root + "/" + e["name"]
            if os.path.lexists(s.p(name)):
                continue
            if e["kind"] == "file":
                s.u_write(name, b"a file")
            elif e["kind"] == "link":
                s.u_symlink(s.p("elsewhere/keep"), name)
                s.set_times(os.lstat(s.p(name)).st_ino, s.fsnow() - e["age"], s.fsnow() - e["age"])
                continue
            else:
                s.u_mkdir(name)
                for f in e.get("files", []):
                    if f.endswith("/"):
                        s.u_mkdir(name + "/" + f[:-1])
                    elif f.endswith("@"):
                        s.u_symlink(s.p("elsewhere/keep") if len(f) % 2 else s.p("elsewhere/other"), name + "/" + f[:-1])
                    else:
                        if os.path.dirname(f):
                            s.u_mkdir(name + "/" + os.path.dirname(f))
                        s.u_write(name + "/" + f, b"contents of " + f.encode())
            t = s.fsnow() - e["age"]
            if e["kind"] == "file":
                s.u_utime(name, t, t)
                continue
            s.u_utime(name, t if not e.get("mage") else s.fsnow() - e["mage"], t)
            for f in e.get("files", []):
                if not f.endswith(("/", "@")):
                    q = t if not e.get("fage") else s.fsnow() - e["fage"]
                    s.u_utime(name + "/" + f, q, q)
        if st.get("linked"):                  # an old link target must not be reached through links
            t = s.fsnow() - 30 * DAY
            for x in ("elsewhere/keep/file", "elsewhere/other", "elsewhere/keep", "elsewhere"):
                s.u_utime(x, t, t)

    def before_phase(self, i, st):
        RunWorld.before_phase(self, i, st)
        s = self.sim
        self.t0 = s.real
        self.tree0 = self.sim.tree(".")
        self.roots = {self.node_root(nd) for nd in st["nodes"]} | {"data/Ocelot/model-runs"}
        self.ages = {}
        for root in self.roots:
            for e in self.entries(root):
                p = root + "/" + e
                if (RUNID.match(e) or p in getattr(self, "known", ())) and os.path.isdir(s.p(p)) and not os.path.islink(s.p(p)):
                    self.ages[p] = s.get_times(s.p(p))[1]

    def after_phase(self, i, st, ph):
        if not self.progress(i, ph):
            return
        s = self.sim
        runs = self.runs_of(i, st, ph)
        self.known = getattr(self, "known", set()) | {m for r in runs for m in r.made}     # whatever its name is
        times = [self.t0, s.real] + [e[10] for e in ph.events]
        lo, hi = min(times), max(times)
        must = set()
        cleaned = {}
        for nd in st["nodes"]:
            for k, (c, r) in enumerate(zip(nd["cmds"], ph.results[nd["id"]])):
                if c["do"] != "cleanup":
                    continue
                fired = [f for f in ph.fired if self.base(f[0]) == nd["id"]]
                if r["st"] != "ok" and not fired:
                    self.bad("cleanup failed", "phase %d %s: cleanup ended with %s without any fault" % (i, nd["id"], {a: b for a, b in r.items() if a != "val"}))
                    return
                if r["st"] == "ok" and not fired:
                    cleaned.setdefault(self.node_root(nd), set()).add(nd["id"])
        roots = {self.node_root(nd) for nd in st["nodes"] for c in nd["cmds"] if c["do"] == "cleanup"}
        if ph.fired:
            roots.add("data/Ocelot/model-runs")     # the documented fallback when the configured location can't be used
        may = {p for p, t in self.ages.items() if os.path.dirname(p) in roots and t < hi - WEEK}
        must = {p for p, t in self.ages.items() if cleaned.get(os.path.dirname(p)) and t < lo - WEEK}
        for e in ph.events:                   # a cleanup that met a fault had begun to delete it: it is young again for the others
            if e[2] in ("unlink", "rmdir") and any(self.base(f[0]) == self.base(e[1]) for f in ph.fired):
                must -= {p for p in must if e[3] == p or e[3].startswith(p + "/")}
        for p in sorted(must):
            if os.path.lexists(s.p(p)):
                self.bad("old run kept", "phase %d: %s, last changed %.2f days before, is still there after cleanup" % (i, p, (lo - self.ages[p]) / DAY))
                return
        now = s.tree(".")
        own = [m for r in runs for m in r.made]
        for k, v in self.tree0.items():
            if any(k == p or k.startswith(p + "/") for p in may):
                continue
            if k.startswith("data/Ocelot/cache") or k in now and now[k] == v:
                continue
            p = next((p for p in self.ages if k == p or k.startswith(p + "/")), None)
            what = "%s of a run last changed %.2f days before" % (k, (hi - self.ages[p]) / DAY) if p else k + ", which is no model run,"
            self.bad("wrong deletion", "phase %d: %s was %s" % (i, what, "deleted" if k not in now else "changed"))
            return
        for k in now:
            if k not in self.tree0 and not k.startswith("data/Ocelot/cache") and not any(k == m or k.startswith(m + "/") for m in own) and now[k] is not None:
                self.bad("strange file", "phase %d: %s appeared" % (i, k))
                return
        for e in ph.events:
            if e[7] == "denied":
                self.bad("wrong deletion", "phase %d: %s tried %s of %s" % (i, e[1], e[2], e[3]))
                return
        for r in runs:
            if r.fired or any(f.get("raise") for f in r.functions()):
                continue
            if hi - min([e[10] for e in r.events] + [hi]) > WEEK:      # the clock went that far: it may be old by now
                continue
            self.same_as_alone(r, "running model disturbed")


class C09(K.BaseCheck):
    world = C09World

    def entry(self, rng, n):
        near = [WEEK - DAY, WEEK - 3600 * NSEC, WEEK + 3600 * NSEC, WEEK + DAY, WEEK - 60 * NSEC, WEEK + 60 * NSEC, WEEK + NSEC, WEEK - 1800 * NSEC]
        age = rng.choice(near) if rng.random() < 0.6 else rng.choice([0, NSEC, 3 * DAY, 8 * DAY, 30 * DAY, 400 * DAY, 6 * DAY, -DAY, -10 * DAY])
        h = hexname((n, rng.randrange(10 ** 9)))
        files = rng.sample(["report.log.json", "detailed.log.json", "report.html", "final-results.pickle", "0.x.pickle", "follow/", "follow/0.pickle", "assets/css/a.css", "assets/js/b.js", "link@", "lnk@", ".hidden"],
                           rng.choice([0, 2, 4, 8]))
        e = {"kind": "run", "name": h, "age": age, "files": files}
        if rng.random() < 0.25:                  # files in it are older or younger than itself
            e["fage"] = rng.choice([NSEC, 30 * DAY, DAY, 8 * DAY])
        if rng.random() < 0.2:                   # its modification time was set back, as copying tools do
            e["mage"] = age + rng.choice([30 * DAY, 5 * DAY])
        x = rng.random()
        if x < 0.35:
            e["age"] = rng.choice([8 * DAY, 30 * DAY, 30 * DAY, 0])
            k = rng.randrange(9)
            if k == 0:
                e["kind"] = "file"
            elif k == 1:
                e["kind"] = "link"
            elif k == 2:
                e["name"] = h + rng.choice([".bak", "-old", " (copy)", "0"])
            elif k == 3:
                e["name"] = rng.choice(["backup-", "my ", "x"]) + h
            elif k == 4:
                e["name"] = h[:rng.choice([31, 30, 8])]
            elif k == 5:
                e["name"] = "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))
            elif k == 6:
                e["name"] = rng.choice([".cache", "results", "archive", "2016-05 final", "ünï", "model-runs"])
            elif k == 7:
                e["name"] = "g" + h[1:]
            else:
                e["kind"] = "file"; e["name"] = rng.choice(["notes.txt", ".DS_Store", h + ".zip"])
        return e

    def clock(self, rng):
        c = K.clock(rng)
        if rng.random() < 0.3:
            c["start"] = rng.choice([10 * DAY, 500 * DAY, 86400 * 365 * 60 * NSEC, 86400 * 365 * 70 * NSEC]) + rng.randrange(NSEC)
        return c

    def base(self, rng):
        dirs = K.sources(rng, 1, 1, 3)
        env = rng.choice(ENVS)
        plan = {"seed": rng.randrange(2 ** 40), "clock": self.clock(rng), "dirs": dirs, "gap": 3 * NSEC, "env": env, "steps": []}
        if rng.random() < 0.25:                  # the week in which summer time begins or ends
            plan["tz"] = "CET-1CEST,M3.5.0,M10.5.0/3"
            plan["clock"]["start"] = rng.choice([1414285200, 1427590800, 1445734800]) * NSEC + rng.randrange(int(8 * DAY))
        S = plan["steps"]
        u = [0]

        def run(hi=2):
            u[0] += 1
            return run_cmd(rng, "s0", K.config(rng, 1, hi, start=10 * u[0]), follow_name(rng, dirs, "s0"))
        for _ in range(rng.choice([0, 0, 1, 2])):
            S.append({"t": "phase", "nodes": [{"id": "n0", "cpus": 1, "cwd": "cwd", "cmds": [run()]}]})
            S.append({"t": "wait", "ns": rng.choice([DAY, 5 * DAY, 6 * DAY + 20 * 3600 * NSEC, WEEK + 3600 * NSEC, 20 * DAY])})
        S.append({"t": "fill", "entries": [self.entry(rng, n) for n in range(rng.choice([0, 2, 6, 12, 12, 30]))], "linked": rng.random() < 0.8})
        if env.get("OCELOT_OUTPUT") and rng.random() < 0.7:
            S.append({"t": "fill", "default": True, "entries": [self.entry(rng, 50 + n) for n in range(4)]})
        if rng.random() < 0.3:
            S.append({"t": "wait", "ns": rng.choice([3600 * NSEC, 2 * DAY])})
        nodes = [{"id": "n0", "cpus": 1, "cwd": "cwd", "cmds": [{"do": "cleanup", "cli": rng.random() < 0.4}]}]
        if rng.random() < 0.3:
            nodes[0]["cmds"].insert(0, run())
        if rng.random() < 0.3:
            nodes[0]["cmds"].append(run())
        for n in range(rng.choice([0, 0, 1, 1, 2])):
            cmds = []
            for _ in range(rng.choice([1, 1, 2])):
                c = run(3)
                x = rng.random()
                if x < 0.3:
                    f = rng.choice(K.cfg_functions(c["config"])); f["raise"] = rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "ValueError"]); f["form"] = "plain"
                elif x < 0.4:
                    c = {"do": "sleep", "s": 3600 * 24 * 8}
                elif x < 0.6:                    # somebody else cleans up, too
                    c = {"do": "cleanup", "cli": rng.random() < 0.3}
                cmds.append(c)
            nodes.append({"id": "n%d" % (n + 1), "cpus": 1, "cwd": "cwd", "cmds": cmds})
        S.append({"t": "phase", "tag": "target", "nodes": nodes, "order": rng.randrange(3), "sched": K.schedule(rng, len(nodes), 60 * len(nodes))})
        for _ in range(rng.choice([1, 1, 2])):
            S.append({"t": "wait", "ns": rng.choice([NSEC, DAY, WEEK, WEEK + 3600 * NSEC, WEEK + DAY, 30 * DAY])})
            S.append({"t": "phase", "nodes": [{"id": "n0", "cpus": 1, "cwd": "cwd", "cmds": [{"do": "cleanup", "cli": rng.random() < 0.3}]}], "order": rng.randrange(3)})
        return plan

    def explore(self, rng, tier):
        plan = K.respell(self.base(rng))
        res = yield plan
        t = next(i for i, s in enumerate(plan["steps"]) if s.get("tag") == "target")
        ph = res["phases"][sum(1 for s in plan["steps"][:t] if s["t"] == "phase")]
        for _ in range(7 if tier == "quick" else 20):
            p = copy.deepcopy(plan)
            st = p["steps"][t]
            st["sched"] = K.schedule(rng, len(st["nodes"]), 60 * len(st["nodes"]))
            if rng.random() < 0.2:
                j = p["clock"]["jumps"]
                for _ in range(rng.choice([1, 2])):
                    j[str(rng.randrange(max(2, res["steps"])))] = rng.choice([-1, 1]) * rng.choice([3600 * NSEC, DAY, 10 * DAY])
            x = rng.random()
            if x < 0.75:
                nid = "n0" if rng.random() < 0.75 else rng.choice(st["nodes"])["id"]
                ops = [(k, e) for k, e in enumerate(e for e in ph.events if e[1] == nid) if e[2] not in ("cmd", "start")]
                del_ = [o for o in ops if o[1][2] in ("unlink", "rmdir")]
                if not ops:
                    continue
                faults = {}
                for _ in range(rng.choice([1, 1, 2])):
                    k, e = rng.choice(del_) if del_ and rng.random() < 0.5 else rng.choice(ops)
                    f = K.fault_for(rng, e, ["die", "die_after", "fail", "fail", "int", "int_after"])
                    if f:
                        faults[str(k)] = f
                st["faults"] = {nid: faults}
            yield p
