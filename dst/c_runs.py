"""Whole model runs: C03 concurrency, C04 interrupts, C05 log isolation, C06 kills, C07 snapshots, C12 I/O errors, C13 containment."""
import copy
import hashlib
import json
import os
import random
import re

import common as K
from node import UUID, canon, described, real_functions
from sim import MUTATING, NSEC, PAGE
from world import DAY, RUNID, SPOLD, Violation, World, expect

NUM = re.compile(r"-?[0-9][0-9.]*(?:e[+-]?[0-9]+)?")


class Run:
    """One run command of one simulated process and everything seen of it."""

    def __init__(self, i, nid, k, c, r, win, root):
        self.phase, self.nid, self.k, self.c, self.r, self.win, self.root = i, nid, k, c, r, win, root
        self.dir = None
        self.marks = []
        self.events = []
        self.made = []

    def __str__(self):
        return "phase %d process %s command %d (run %s%s)" % (self.phase, self.nid, self.k, self.c.get("src"), ", command line" if self.c.get("cli") else "")

    @property
    def st(self):
        return self.r["st"] if self.r else "none"

    def outcome(self):
        return {a: b for a, b in (self.r or {}).items() if a not in ("val", "lines", "tap", "audit", "passed")}

    @property
    def real(self):
        """Whether the functions are those of a real system model."""
        return isinstance(self.c["config"], dict) and "real" in self.c["config"]

    def functions(self):
        if not self.real:
            return K.cfg_functions(self.c["config"])
        tap = (self.r or {}).get("tap") or {}
        out = []
        for i, f in enumerate(real_functions(self.c["config"])):
            d = dict(described(f), u="r%d" % i)
            t = tap.get(d["u"])
            d["rows"] = [x for _, x in t["rows"]] if t else Unknown()
            d["kinds"] = [x for x, _ in t["rows"]] if t else Unknown()
            d["detail"] = t["detail"] if t else Unknown()
            out.append(d)
        return out

    def row(self, f, i):
        """A logged row as it is to be found in the log: type and JSON text."""
        if self.real:
            return (f["kinds"][i], f["rows"][i])
        return ("table element" if f.get("table") else "list element", json.dumps(f["rows"][i]))


class Unknown:
    """Rows of a run that could not tell what it logged."""
    def __getitem__(self, i):
        return "?"


class RunWorld(World):
    def base(self, nid):
        return nid.split(".")[0]

    def canon(self, data):
        return canon(data, self.sim.root, bool(self.plan.get("dbs")))

    def node_env(self, nd):
        e = dict(self.sim.env); e.update(nd.get("env", {}))
        return e

    def node_root(self, nd):
        o = self.node_env(nd).get("OCELOT_OUTPUT")
        if not o:
            return "data/Ocelot/model-runs"
        p = os.path.join(self.sim.p(nd.get("cwd", ".")), o.replace("$ROOT", self.sim.root))
        return self.sim.canonical(os.path.relpath(os.path.normpath(p), self.sim.root))

    def before_phase(self, i, st):
        self.had = {}
        for nd in st["nodes"]:
            r = self.node_root(nd)
            self.had[r] = set(self.entries(r))

    def runs_of(self, i, st, ph):
        """The run commands of a phase, with their marks, events and output directories."""
        out = []
        for nd in st["nodes"]:
            wins = self.windows(ph, nd["id"])
            res = ph.results[nd["id"]]
            root = self.node_root(nd)
            for k, c in enumerate(nd["cmds"]):
                if k >= len(wins) or c["do"] != "run":
                    continue
                lo, hi = wins[k][0], wins[k][1]
                if hi is None:
                    hi = 10 ** 12
                run = Run(i, nd["id"], k, c, res[k] if k < len(res) else None, (lo, hi), root)
                run.node = nd
                run.marks = [m[2] for m in ph.marks if m[1] == nd["id"] and lo < m[0] < hi]
                run.events = [e for e in ph.events if self.base(e[1]) == nd["id"] and lo < e[0] < hi]
                run.fired = [f for f in ph.fired if self.base(f[0]) == nd["id"]]
                roots = {root} | ({"data/Ocelot/model-runs"} if run.fired else set())      # the documented fallback
                run.made = [e[3] for e in run.events if e[2] == "mkdir" and e[8] >= 0 and e[7] != "die" and os.path.dirname(e[3]) in roots]
                if run.st == "ok" and run.r["val"].get("dir"):
                    run.dir = self.sim.canonical(os.path.normpath(run.r["val"]["dir"]))
                elif run.made:
                    run.dir = run.made[0]
                out.append(run)
        return out

    # ---- the contents of a run directory, independent of identity and time ------------------------------------------
    def normal(self, rel):
        out = {}
        rid = os.path.basename(rel)
        for p, v in self.sim.tree(rel).items():
            q = os.path.relpath(p, rel)
            if q == ".":
                continue
            out[q] = self.normal_file(q, p, v, rid)
        return out

    def normal_file(self, q, p, v, rid):
        if v is None:
            return "directory"
        if isinstance(v, str):
            return "link"
        if q.startswith("assets/"):
            return hashlib.sha1(v).hexdigest()[:12]
        if q.endswith(".pickle"):
            try:
                return "pickle " + self.canon(self.unpickle(p))
            except Violation:
                return "damaged pickle"
        if q.endswith(".log.json"):
            lines, rest = self.loglines(p)
            return self.strip(lines, rid) + (["rest %d" % len(rest)] if rest else [])
        if q == "report.html":
            t = v.decode("utf-8", "replace").replace(rid, "ID").replace(self.sim.root, "$ROOT")
            if self.plan.get("dbs"):
                t = UUID.sub("UUID", t)
            return "report " + hashlib.sha1(NUM.sub("#", t).encode()).hexdigest()[:12]
        return hashlib.sha1(v).hexdigest()[:12]

    def strip(self, lines, rid):
        out = []
        fresh = bool(self.plan.get("dbs"))
        for l in lines:
            l = {k: v for k, v in l.items() if k != "time"} if isinstance(l, dict) else l
            t = json.dumps(l, sort_keys=True).replace(rid, "ID").replace(self.sim.root, "$ROOT")
            out.append(UUID.sub("UUID", t) if fresh else t)
        return out

    # ---- the same command run alone -------------------------------------------------------------------------------------
    def alone(self, run):
        c = {k: v for k, v in run.c.items() if k not in ("int_line", "int_call", "do_yield")}
        dirs = {d: {f: s[1] for f, s in m.items()} for d, m in self.models.items()}
        return alone(dirs, c, self.plan.get("links", {}), self.links, self.node_env(run.node), run.node.get("cwd", "cwd"), self.sim.base, self.small, self.plan.get("dbs"))

    def same_as_alone(self, run, cls, tree=True):
        want = self.alone(run)
        if want["st"] != "ok":
            return True                 # it does not work alone either: not this property's business
        if run.st != "ok":
            self.bad(cls, "%s ended with %s; alone it completes" % (run, run.outcome()))
            return False
        v = run.r["val"]
        if not run.c.get("cli") and (v["n"], v["canon"]) != (want["n"], want["canon"]):
            self.bad(cls, "%s returned other data (%d datasets) than alone (%d)" % (run, v["n"], want["n"]))
            return False
        if tree:
            if run.dir is None:
                self.bad(cls, "%s left no output directory" % run)
                return False
            d = tree_diff(want["tree"], self.normal(run.dir))
            if d:
                self.bad(cls, "%s: output directory differs from that of the run alone: %s" % (run, d))
                return False
        return True

    def placed(self, run, cls, seen):
        """A fresh directory of its own, directly inside the configured output location."""
        d = run.dir
        if os.path.dirname(d) != run.root:
            self.bad(cls, "%s wrote to %s, not directly inside %s" % (run, d, run.root))
        elif os.path.basename(d) in self.had.get(run.root, ()):
            self.bad(cls, "%s used %s, which existed before" % (run, d))
        elif d in seen:
            self.bad(cls, "%s and %s share the output directory %s" % (seen[d], run, d))
        seen[d] = str(run)

    def progress(self, i, ph):
        if ph.hung or ph.deadlock:
            self.bad("no progress", "phase %d: hung=%s deadlock=%s" % (i, ph.hung, ph.deadlock))
            return False
        crashed = {k: v for k, v in ph.died.items() if v.startswith("crash")}
        if crashed:
            self.bad("process crashed", "phase %d: %s" % (i, crashed))
            return False
        return True

    # ---- logs ---------------------------------------------------------------------------------------------------------------
    def records(self, run):
        """Records implied by the marks of a run: list of (kind, ...), whether the run is known to be past each is implied."""
        fs = {f["u"]: f for f in run.functions()}
        out = [("report start",)]
        idx = -1
        started = False
        first = None
        for m in run.marks:
            w = m.split(" ")
            if w[0] == "fn.begin":
                idx += 1
                if first is None:
                    first = int(w[2])
                out.append(("function start", idx, fs[w[1]]["n"], int(w[2])))
            elif w[0] == "log.end":
                out.append(run.row(fs[w[1]], int(w[2])))
            elif w[0] == "fn.end":
                out.append(("function end", idx, fs[w[1]]["n"], int(w[2])))
        out[0] = ("report start", os.path.basename(run.dir) if run.dir else None, first)
        if run.st == "ok":
            out.append(("report end",))
        return out

    @staticmethod
    def short(l):
        if not isinstance(l, dict):
            return ("<not a record>", str(l)[:100])
        t = l.get("type")
        if t == "report start":
            return (t, l.get("uuid"), l.get("count"))
        if t in ("function start", "function end"):
            return (t, l.get("index"), l.get("name"), l.get("count"))
        if t in ("table element", "list element"):
            return (t, json.dumps(l.get("data")))
        return (t,)

    def details(self, run):
        fs = {f["u"]: f for f in run.functions()}
        out = []
        for m in run.marks:
            w = m.split(" ")
            if w[0] == "det.end":
                d = fs[w[1]]["detail"][int(w[2])]
                out.append(d if run.real else (d, fs[w[1]]["n"]))
        return out

    # ---- snapshots -----------------------------------------------------------------------------------------------------------
    def snapshots_of(self, run):
        """function number -> canonical digest after it, from the marks"""
        out = []
        for m in run.marks:
            w = m.split(" ")
            if w[0] == "fn.end":
                out.append((int(w[2]), w[3]))
        return out

    def check_snapshot(self, run, files, i, want, cls, when):
        mine = [f for f in files if f.endswith(".pickle") and re.match(r"%d(\D|$)" % i, f)]
        if len(mine) != 1:
            self.bad(cls, "%s %s: %d intermediate results for function %d" % (run, when, len(mine), i))
            return False
        try:
            got = self.unpickle(run.dir + "/" + mine[0])
        except Violation as e:
            self.bad(cls, "%s %s: intermediate result of function %d: %s" % (run, when, i, str(e)[-120:]))
            return False
        if self.canon(got) != want[1]:
            self.bad(cls, "%s %s: intermediate result of function %d is not the data after that function (%s datasets, %d expected)" % (
                run, when, i, len(got) if hasattr(got, "__len__") else "?", want[0]))
            return False
        return True

    def followed(self, run, i):
        """What the marks say about followed datasets after function i: None when unknown."""
        return None

    def check_logged(self, run, cls):
        """Whatever the log says is finished has its results complete on disk."""
        lines, rest = self.loglines(run.dir + "/report.log.json")
        if lines is None:
            return
        files = self.entries(run.dir)
        snaps = self.snapshots_of(run)
        save = run.c.get("save")
        for l in map(self.short, lines):
            if l[0] == "function end":
                i = l[1]
                if not isinstance(i, int) or i >= len(snaps):
                    self.bad(cls, "%s: the log says that function %s finished, which it did not" % (run, i))
                    return
                if K.selected(save, i) and not self.check_snapshot(run, files, i, snaps[i], cls, "(%s)" % self.ended(run)):
                    return
                fo = run.c.get("follow")
                if fo and not self.check_follow(run, i, snaps[i], cls):
                    return
            elif l[0] == "report end":
                if len(snaps) != len(run.functions()):
                    self.bad(cls, "%s: the log says that the run finished after %d of %d functions" % (run, len(snaps), len(run.functions())))
                    return
                self.check_final(run, snaps, cls)

    def ended(self, run):
        return "killed" if run.r is None else "ended with %s" % (run.r["st"] if run.r["st"] != "exc" else run.r["type"])

    def check_final(self, run, snaps, cls):
        try:
            got = self.unpickle(run.dir + "/final-results.pickle")
        except Violation as e:
            self.bad(cls, "%s (%s): final results: %s" % (run, self.ended(run), str(e)[-120:]))
            return False
        if snaps and self.canon(got) != snaps[-1][1]:
            self.bad(cls, "%s (%s): final results are not the data after the last function" % (run, self.ended(run)))
            return False
        return True

    def check_follow(self, run, i, snap, cls):
        """The followed datasets after function i are on disk if there are any (known from the snapshot of that function)."""
        fo = run.c["follow"]
        files = [f for f in self.entries(run.dir) if f.endswith(".pickle") and re.match(r"%d(\D|$)" % i, f)]
        if len(files) != 1:
            return True
        try:
            data = self.unpickle(run.dir + "/" + files[0])
        except Violation:
            return True
        want = [ds for ds in data if fo in ds["filepath"]]
        fl = [f for f in self.entries(run.dir + "/follow") if re.match(r"%d(\D|$)" % i, f)]
        if not want:
            if fl:
                self.bad(cls, "%s: followed datasets saved after function %d, which has none" % (run, i))
                return False
            return True
        if len(fl) != 1:
            self.bad(cls, "%s (%s): %d files of followed datasets for function %d" % (run, self.ended(run), len(fl), i))
            return False
        try:
            got = self.unpickle(run.dir + "/follow/" + fl[0])
        except Violation as e:
            self.bad(cls, "%s (%s): followed datasets of function %d: %s" % (run, self.ended(run), i, str(e)[-120:]))
            return False
        if self.canon(got.get("datasets")) != self.canon(want) or got.get("index") != i:
            self.bad(cls, "%s: followed datasets of function %d are not those after that function" % (run, i))
            return False
        return True


def tree_diff(want, got):
    miss = sorted(set(want) - set(got)); extra = sorted(set(got) - set(want))
    if miss or extra:
        return "missing %s, unexpected %s" % (miss[:4], extra[:4])
    for k in sorted(want):
        if want[k] != got[k]:
            if isinstance(want[k], list) and isinstance(got[k], list):
                for n, (a, b) in enumerate(zip(want[k] + ["<end>"], got[k] + ["<end>"])):
                    if a != b:
                        return "%s line %d: %.140s instead of %.140s" % (k, n, b, a)
            return "%s differs (%.60s, alone %.60s)" % (k, got[k], want[k])
    return None


_alone = {}


class AloneWorld(RunWorld):
    def after_phase(self, i, st, ph):
        self.run_ = self.runs_of(i, st, ph)[0]
        r = self.run_
        self.answer = {"st": r.st, "outcome": r.outcome(), "marks": r.marks, "fired": len(ph.fired)}
        if r.st == "ok":
            v = r.r["val"]
            self.answer.update(n=v.get("n"), canon=v.get("canon"), tree=self.normal(r.dir), dir=r.dir)


def alone(dirs, c, links, linkto, env, cwd, base, small, dbs=None):
    key = json.dumps([dirs, c, links, linkto, env, cwd, small, dbs], sort_keys=True)
    if key not in _alone:
        if len(_alone) > 200:
            _alone.clear()
        saved = bytes(PAGE)
        try:
            b = os.path.join(base, "alone")
            os.makedirs(b)
            plan = {"seed": 7, "dirs": dirs, "links": dict(linkto), "env": env, "clock": {"gran": 1}, "gap": 10 * NSEC,
                    "steps": [{"t": "phase", "nodes": [{"id": "n0", "cpus": 2, "cwd": cwd, "cmds": [c]}]}]}
            if dbs:
                plan["dbs"] = dbs
                plan["steps"][0]["nodes"][0]["fresh"] = True
            w = AloneWorld(plan, b)
            w.small = small
            try:
                w.run()
            finally:
                w.sim.close()
            _alone[key] = w.answer
        finally:
            PAGE[:] = saved
    return _alone[key]


# ---- plan pieces ----------------------------------------------------------------------------------------------------------
def run_cmd(rng, src, cfg=None, follow=None, cache=None, lo=1, hi=4):
    cfg = cfg if cfg is not None else K.config(rng, lo, hi)
    c = {"do": "run", "src": src, "config": cfg}
    n = len(K.cfg_functions(cfg))
    if rng.random() < 0.7:
        c["save"] = K.strategy(rng, n)
    if rng.random() < 0.3 and follow:
        c["follow"] = follow
    if cache is not None:
        c["use_cache"] = cache
    elif rng.random() < 0.25:
        c["use_cache"] = False
    return c


ENVS = [{}, {}, {}, {"OCELOT_OUTPUT": "$ROOT/out"}, {"OCELOT_OUTPUT": "$ROOT/deep/er/out"}, {"OCELOT_OUTPUT": "$ROOT/my results"}, {"OCELOT_OUTPUT": "relative/out"},
        {"OCELOT_OUTPUT": "$ROOT/out/"}, {"OCELOT_OUTPUT": "$ROOT/via"}, {"OCELOT_OUTPUT": "$ROOT/r[e]s* ~ $HOME %n ü"}]


def target_ops(plan, res, tag="target", nid="n0", cmd=0, workers=True):
    """(node id, ordinal, event) of the operations of the target command in its clean execution."""
    t = next(i for i, st in enumerate(plan["steps"]) if st.get("tag") == tag)
    ph = res["phases"][sum(1 for s in plan["steps"][:t] if s["t"] == "phase")]
    lo = hi = None
    for step, n, text in ph.marks:
        if n == nid and text == "begin %d" % cmd:
            lo = step
        if n == nid and text.startswith("end %d " % cmd):
            hi = step
    out = []
    cnt = {}
    for e in ph.events:
        k = cnt.get(e[1], 0)
        cnt[e[1]] = k + 1
        if lo is not None and lo < e[0] < (hi or 10 ** 12) and (e[1] == nid or workers and e[1].startswith(nid + ".")):
            out.append((e[1], k, e))
    return t, ph, out


def follow_name(rng, dirs, src):
    fs = sorted(f for f in dirs[src] if SPOLD(f))
    return rng.choice(fs + ["f1.spold", "nothing.spold"])


# ---- C03 --------------------------------------------------------------------------------------------------------------------
class C03World(RunWorld):
    def after_phase(self, i, st, ph):
        if not self.progress(i, ph):
            return
        seen = {}
        victims = {self.base(f[0]) for f in ph.fired}
        runs = self.runs_of(i, st, ph)
        for r in runs:
            if r.nid in victims:
                continue
            if self.same_as_alone(r, "disturbed") and r.st == "ok" and r.dir:
                self.placed(r, "misplaced", seen)
        for nd in st["nodes"]:
            if nd["id"] in victims:
                continue
            for k, (c, r) in enumerate(zip(nd["cmds"], ph.results[nd["id"]])):
                if c["do"] == "extract":
                    if r["st"] != "ok":
                        self.bad("disturbed", "phase %d %s: extraction of %s ended with %s" % (i, nd["id"], c["src"], {a: b for a, b in r.items() if a != "val"}))
                    else:
                        self.judge_data(c["src"], r["val"]["data"], 0, 10 ** 12 if False else None, "phase %d %s extraction" % (i, nd["id"]), "disturbed") if not self.timeline[1:] else None


class C03(K.BaseCheck):
    world = C03World
    share, byname, cap = 0.05, 0.5, 4

    def base(self, rng):
        dirs = K.sources(rng, rng.randint(1, 2), 1, 4)
        plan = {"seed": rng.randrange(2 ** 40), "clock": K.clock(rng), "dirs": dirs, "gap": rng.choice([10 ** 6, 3 * NSEC, DAY]), "steps": []}
        S = plan["steps"]
        env = rng.choice(ENVS)
        x = rng.random()
        small = lambda: K.config(rng, 1, 2, rich=rng.random() < 0.5)
        if x < 0.5:
            S.append({"t": "phase", "nodes": [{"id": "n0", "cpus": 2, "cwd": "cwd", "env": rng.choice([{}, env]), "cmds": [run_cmd(rng, "s0", small())]}]})
            if x < 0.25:
                S.append({"t": "wait", "ns": rng.choice([10 ** 6, 5 * NSEC])})
                S.append({"t": "edit", "edit": {"e": rng.choice(["write", "replace"]), "d": "s0", "f": rng.choice([f for f in dirs["s0"] if SPOLD(f)]), "v": 5}})
            S.append({"t": "wait", "ns": rng.choice([10 ** 6, 5 * NSEC])})
        nodes = []
        cfg = small()
        same = rng.random() < 0.4
        for n in range(rng.choice([2, 2, 2, 3, 3, 4])):
            src = "s0" if rng.random() < 0.7 else rng.choice(list(dirs))
            cmds = [run_cmd(rng, src, cfg if same else small(), follow_name(rng, dirs, src), cache=rng.random() < 0.85) for _ in range(rng.choice([1, 1, 1, 2]))]
            nodes.append({"id": "n%d" % n, "cpus": rng.choice([1, 1, 2]), "cwd": "cwd", "env": env if rng.random() < 0.85 else rng.choice(ENVS), "cmds": cmds})
        S.append({"t": "phase", "tag": "target", "nodes": nodes, "order": rng.randrange(3), "sched": self.sched(rng, nodes)})
        return plan

    def sched(self, rng, nodes):
        if rng.random() < 0.3:              # lock step: everyone runs the same operations at the same time
            return {"kind": "rand", "seed": rng.randrange(2 ** 31), "p": 0.97}
        return K.schedule(rng, len(nodes), 60 * len(nodes))

    def explore(self, rng, tier):
        plan = self.draw(rng)
        res = yield plan
        for _ in range(5 if tier == "quick" else 14):
            p = copy.deepcopy(plan)
            t = next(i for i, s in enumerate(p["steps"]) if s.get("tag") == "target")
            st = p["steps"][t]
            st["sched"] = self.sched(rng, st["nodes"])
            st["order"] = rng.randrange(3)
            p["clock"] = K.clock(rng)
            if rng.random() < 0.3:          # one of them is killed or interrupted
                victim = rng.choice(st["nodes"])["id"]
                ops = [e for e in res["phases"][-1].events if e[1] == victim]
                if ops:
                    n = rng.randrange(1, len(ops))
                    f = K.fault_for(rng, ops[n], ["die", "die", "die_after", "int", "int_after"])
                    st["faults"] = {victim: {str(n): f}}
            yield p


# ---- C04 ----------------------------------------------------------------------------------------------------------------------
class C04World(RunWorld):
    def before_phase(self, i, st):
        RunWorld.before_phase(self, i, st)
        self.tree0 = {k: v for k, v in self.sim.tree(".").items() if not k.startswith("data/Ocelot/cache")}

    def after_phase(self, i, st, ph):
        if not self.progress(i, ph):
            return
        runs = self.runs_of(i, st, ph)
        hit = {}
        for f in ph.fired:
            hit[f[0]] = f
        own = {m for r in runs for m in r.made}
        for r in runs:
            target = st.get("tag") == "target" and r.k == 0
            if target and r.fired:
                if "interrupt-dropped" not in r.marks:
                    self.judge_interrupted(r, ph)
            else:
                self.same_as_alone(r, "later run failed")
        now = self.sim.tree(".")
        for k, v in self.tree0.items():
            if now.get(k, "gone") != v:
                self.bad("damage", "%s, which existed before the interrupted run, was %s" % (k, "deleted" if k not in now else "changed"))
                return

    def judge_interrupted(self, r, ph):
        f = r.fired[0]
        at = "interrupted at %s %s (operation %d)" % (f[2], f[3], f[1]) if f[4] != "line-interrupt" else "interrupted at %s" % (r.c.get("int_call") or "line %d" % r.c["int_line"])
        if not (r.st == "int" or r.st == "exit" and r.r.get("code") == 1):
            self.bad("interrupt lost", "%s %s ended with %s" % (r, at, r.outcome()))
            return
        for d in r.made:
            if not os.path.isdir(self.sim.p(d)):
                continue
            files = [e for e in r.events if e[2] == "open" and e[5] & 3 and e[8] >= 0 and e[3].startswith(d + "/")]
            left = [p for p, v in self.sim.tree(d).items() if p != d]
            if not files and all(v is None for p, v in self.sim.tree(d).items()):
                continue                      # hit while the directory was being created
            want = self.alone(r)
            if want["st"] == "ok":
                diff = tree_diff(want["tree"], self.normal(d))
                if diff is None:
                    continue                  # everything had been written
                self.bad("partial output", "%s %s left %d entries in its output directory (%s)" % (r, at, len(left), diff))
            return


class C04(K.BaseCheck):
    world = C04World
    share, byname, cap = 0.2, 0.35, 8

    def base(self, rng):
        dirs = K.sources(rng, 1, 1, 4)
        env = rng.choice(ENVS)
        plan = {"seed": rng.randrange(2 ** 40), "clock": K.clock(rng), "dirs": dirs, "gap": 3 * NSEC, "env": env, "steps": []}
        S = plan["steps"]
        cfg = K.config(rng, 1, 3)
        if rng.random() < 0.6:
            S.append({"t": "phase", "nodes": [{"id": "n0", "cpus": 1, "cwd": "cwd", "cmds": [run_cmd(rng, "s0", cfg)]}]})
            S.append({"t": "wait", "ns": rng.choice([10 ** 6, 5 * NSEC])})
        S.append({"t": "decoy", "n": rng.randrange(3)})
        target = run_cmd(rng, "s0", cfg, follow_name(rng, dirs, "s0"))
        later = {"do": "run", "src": "s0", "config": [{"u": "z0", "n": "later", "doc": "x", "kind": "inplace", "rows": ["a"]}], "save": 1}
        cmds = [target]
        if rng.random() < 0.6:
            cmds.append(later)
        S.append({"t": "phase", "tag": "target", "nodes": [{"id": "n0", "cpus": rng.randint(1, 3), "cwd": "cwd", "cmds": cmds}], "order": rng.randrange(2), "sched": K.schedule(rng)})
        S.append({"t": "phase", "nodes": [{"id": "n0", "cpus": 1, "cwd": "cwd", "cmds": [later]}]})
        return plan

    def draw(self, rng):
        plan = K.BaseCheck.draw(self, rng)
        if "dbs" in plan:
            c = next(st for st in plan["steps"] if st.get("tag") == "target")["nodes"][0]["cmds"][0]
            if c["config"].get("byname") and rng.random() < 0.5:
                c["cli"] = True
        return plan

    def explore(self, rng, tier):
        plan = self.draw(rng)
        res = yield plan
        t, ph, ops = target_ops(plan, res, workers=False)
        lines = None
        for _ in range(9 if tier == "quick" else 30):
            p = copy.deepcopy(plan)
            st = p["steps"][t]
            real = "dbs" in p
            if rng.random() < (0.25 if real else 0.5):
                n, k, e = rng.choice(ops)
                st["faults"] = {"n0": {str(k): [rng.choice(["int", "int_after"])]}}
            else:
                how = "int_call" if real else "int_line"
                if lines is None:
                    q = copy.deepcopy(plan)
                    q["steps"][t]["nodes"][0]["cmds"][0][how] = None if real else -1
                    r2 = yield q
                    ph2 = r2["phases"][sum(1 for s in plan["steps"][:t] if s["t"] == "phase")]
                    lines = ph2.results["n0"][0].get("lines") or ({"nowhere": 1} if real else 200)
                st["nodes"][0]["cmds"][0][how] = K.call_point(rng, lines) if real else rng.randrange(lines)
            yield p


# decoys used by C04 and C13
def decoy(world, st):
    s = world.sim
    roots = {world.out_root(), "data/Ocelot/model-runs"} if not (world.plan.get("env") or {}).get("OCELOT_OUTPUT", "").startswith("relative") else {"cwd/relative/out"}
    for root in sorted(roots):
        s.u_mkdir(root)
        for n in range(st["n"]):
            d = root + "/" + hashlib.md5(b"decoy%d" % n).hexdigest()
            if not os.path.exists(s.p(d)):
                s.u_mkdir(d)
                s.u_write(d + "/report.log.json", b'{"type": "report start"}\n')
                s.u_write(d + "/final-results.pickle", b"x")
        s.u_write(root + "/notes.txt", b"mine")
    s.u_write("home/precious.txt", b"mine")


RunWorld.other_step = lambda self, i, st: decoy(self, st) if st["t"] == "decoy" else World.other_step(self, i, st)


# ---- C05 ------------------------------------------------------------------------------------------------------------------------
class C05World(RunWorld):
    def after_phase(self, i, st, ph):
        if not self.progress(i, ph):
            return
        runs = self.runs_of(i, st, ph)
        owners = {}
        for r in runs:
            for d in r.made:
                owners[d] = r
        for r in runs:
            self.judge_run(r)
            for e in r.events:
                if (e[2] in MUTATING or e[2] == "open" and e[5] & 3) and e[8] >= 0:
                    for p in (e[3], e[4]):
                        o = next((d for d in owners if p == d or p.startswith(d + "/")), None)
                        if o and owners[o] is not r:
                            self.bad("foreign write", "%s: %s of %s in the output directory of %s" % (r, e[2], p, owners[o]))
                            return

    def judge_run(self, r):
        if r.dir is None or not os.path.isdir(self.sim.p(r.dir)):
            if r.st == "ok":
                self.bad("log missing", "%s: no output directory" % r)
            return
        if r.st == "none":
            return
        lines, rest = self.loglines(r.dir + "/report.log.json")
        want = self.records(r)
        if lines is None:
            if r.marks:
                self.bad("log missing", "%s has no log" % r)
            return
        if rest:
            self.bad("log damaged", "%s: unfinished line %r" % (r, rest[:80]))
            return
        got = [self.short(l) for l in lines]
        if len(want) == 1 and want[0][2] is None:
            if got:
                want = [got[0]] if got[0][:2] == want[0][:2] else want
            elif r.st != "ok":
                return
        exact = not r.fired
        if not exact and r.st != "ok" and want[-1][0] == "function end" and len(got) == len(want) - 1:
            want = want[:-1]              # its results could not be saved
        m = len(want)
        if got[:m] != want or (exact and len(got) != m) or len(got) > m + 1 or (len(got) == m + 1 and got[m][0] not in ("function start", "function end", "report end")):
            n = next((k for k, (a, b) in enumerate(zip(got + [("<end>",)], want + [("<end>",)])) if a != b), min(len(got), len(want)))
            self.bad("wrong log", "%s (%s): record %d is %s, expected %s" % (r, self.ended(r), n, (got + [("<end>",)])[n], (want + [("<end>",)])[n]))
            return
        if r.st == "ok" and [f["u"] for f in r.functions()] != [x.split(" ")[1] for x in r.marks if x.startswith("fn.begin")]:
            self.bad("wrong log", "%s did not apply its functions in order" % r)
            return
        dl, rest = self.loglines(r.dir + "/detailed.log.json")
        gotd = [(l.get("message"), l.get("function")) for l in dl or []]
        if rest or gotd != self.details(r):
            self.bad("wrong detailed log", "%s: %s, expected %s" % (r, gotd[:6], self.details(r)[:6]))


class C05(K.BaseCheck):
    world = C05World
    share, cap = 0.12, 3

    def base(self, rng):
        dirs = K.sources(rng, 1, 1, 3)
        plan = {"seed": rng.randrange(2 ** 40), "clock": K.clock(rng), "dirs": dirs, "gap": 3 * NSEC, "env": rng.choice(ENVS), "steps": []}
        u = [0]
        for ph in range(rng.choice([1, 1, 2])):
            nodes = []
            for nn in range(rng.choice([1, 1, 1, 2])):
                cmds = []
                for k in range(rng.randint(2, 4)):
                    cfg = K.config(rng, 1, 4, start=u[0] * 10); u[0] += 1
                    x = rng.random()
                    if x < 0.3:
                        f = rng.choice(K.cfg_functions(cfg))
                        f["raise"] = rng.choice(["ValueError", "KeyError", "WorkloadError", "SystemExit", "StopIteration", "MemoryError", "RuntimeError", "KeyboardInterrupt"])
                        f["form"] = "plain"
                    cmds.append(run_cmd(rng, "s0", cfg, follow_name(rng, dirs, "s0")))
                    if rng.random() < 0.4:
                        cmds.append({"do": "log", "text": "outside %d" % k})
                if rng.random() < 0.3:
                    cmds.insert(0, {"do": "log", "text": "before"})
                nodes.append({"id": "n%d" % nn, "cpus": 1, "cwd": "cwd", "cmds": cmds})
            plan["steps"].append({"t": "phase", "tag": "target", "nodes": nodes, "sched": K.schedule(rng)})
        return plan

    def explore(self, rng, tier):
        plan = self.draw(rng)
        res = yield plan
        ph = res["phases"][0]
        for _ in range(3 if tier == "quick" else 8):
            p = copy.deepcopy(plan)
            st = p["steps"][0]
            st["sched"] = K.schedule(rng)
            nid = rng.choice(st["nodes"])["id"]
            ops = [(k, e) for k, e in enumerate(e for e in ph.events if e[1] == nid)]
            ok = [(k, e) for k, e in ops if not e[3].endswith(".log.json") and e[2] not in ("cmd", "start")]
            if not ok:
                continue
            k, e = rng.choice(ok)
            f = K.fault_for(rng, e, ["fail", "fail", "int", "int_after"])
            if f:
                st["faults"] = {nid: {str(k): f}}
                yield p


# ---- C06 --------------------------------------------------------------------------------------------------------------------------
class C06World(RunWorld):
    def after_phase(self, i, st, ph):
        if not self.progress(i, ph):
            return
        for r in self.runs_of(i, st, ph):
            if r.dir is None or not os.path.isdir(self.sim.p(r.dir)) or r.st not in ("none", "ok"):
                continue
            if r.st == "none" and not ph.fired:
                continue
            self.judge(r, "report.log.json")
            self.judge(r, "detailed.log.json")

    def judge(self, r, name):
        a = self.alone(r)
        if a["st"] != "ok":
            return
        full = a["tree"].get(name)
        lines, rest = self.loglines(r.dir + "/" + name)
        if name == "report.log.json":
            need = self.needed(r)
        else:
            need = len(self.details(r))
        if lines is None:
            if need:
                self.bad("log lost", "%s (%s): no %s although %d records were logged" % (r, self.ended(r), name, need))
            return
        got = self.strip(lines, os.path.basename(r.dir))
        if got != (full or [])[:len(got)]:
            n = next(k for k, x in enumerate(got) if k >= len(full) or x != full[k])
            self.bad("log damaged", "%s (%s): %s line %d is %.150s, not %.150s" % (r, self.ended(r), name, n, got[n], full[n] if n < len(full) else "<end>"))
        elif len(got) < need:
            self.bad("log lost", "%s (%s): %s has %d whole records, %d were logged" % (r, self.ended(r), name, len(got), need))
        elif len(got) > self.possible(r, need, len(full or [])):
            self.bad("log runs ahead", "%s (%s): %s has %d records, only %d could have been logged" % (r, self.ended(r), name, len(got), need + 1))
        elif rest and not self.prefix(rest, (full or []), len(got)):
            self.bad("log damaged", "%s (%s): %s ends with %r" % (r, self.ended(r), name, rest[:80]))

    def possible(self, r, need, total):
        return total

    def prefix(self, rest, full, n):
        return n < len(full)

    def needed(self, r):
        """Number of records certainly logged when the process died, from the marks passed."""
        n = 0
        fs = r.functions()
        for m in r.marks:
            w = m.split(" ")[0]
            if w == "fn.begin":
                # report start, and all records up to the start of this function
                n = self.upto(r, m)
            elif w == "log.end":
                n = max(n, 0) + 1
        wrote = [e for e in r.events if e[2] == "open" and e[5] & 3 and e[3].endswith("/report.html") and e[8] >= 0 and e[7] != "die"]
        if wrote:
            n = len(self.records(r)) + (0 if r.st == "ok" else 1)
        if r.st == "ok":
            n = len(self.records(r))
        return n

    def upto(self, r, mark):
        """Records before and including the start record of the function that set this mark."""
        n = 1
        for m in r.marks:
            w = m.split(" ")[0]
            if w in ("fn.begin", "log.end", "fn.end"):
                n += 1
            if m == mark and w == "fn.begin":
                return n
        return n


class KillCheck(K.BaseCheck):
    """Base plan with one target run, then kills (and other faults) at its operations."""
    KINDS = ["die", "die_after", "die_after"]
    N = (9, 30)

    def command(self, rng, dirs):
        return run_cmd(rng, "s0", K.config(rng, 1, 4), follow_name(rng, dirs, "s0"))

    def base(self, rng):
        dirs = K.sources(rng, 1, 1, 3)
        plan = {"seed": rng.randrange(2 ** 40), "clock": K.clock(rng), "dirs": dirs, "gap": 3 * NSEC, "env": rng.choice(ENVS), "steps": []}
        S = plan["steps"]
        if rng.random() < 0.4:
            S.append({"t": "phase", "nodes": [{"id": "n0", "cpus": 1, "cwd": "cwd", "cmds": [{"do": "extract", "src": "s0", "use_mp": False}]}]})
            S.append({"t": "wait", "ns": 5 * NSEC})
        cmds = [self.command(rng, dirs)]
        if rng.random() < 0.35:
            cmds.insert(0, {"do": "run", "src": "s0", "config": K.config(rng, 1, 2, start=50), "save": 1})
        S.append({"t": "phase", "tag": "target", "nodes": [{"id": "n0", "cpus": rng.randint(1, 2), "cwd": "cwd", "cmds": cmds}], "order": rng.randrange(2), "sched": K.schedule(rng)})
        return plan

    def pick(self, rng, ops):
        return rng.choice(ops)

    def explore(self, rng, tier):
        plan = self.draw(rng)
        res = yield plan
        t = next(i for i, st in enumerate(plan["steps"]) if st.get("tag") == "target")
        last = len(plan["steps"][t]["nodes"][0]["cmds"]) - 1
        t, ph, ops = target_ops(plan, res, cmd=last, workers=False)
        if not ops:
            return
        for _ in range(self.N[0] if tier == "quick" else self.N[1]):
            p = copy.deepcopy(plan)
            n, k, e = self.pick(rng, ops)
            f = K.fault_for(rng, e, self.KINDS)
            if f:
                p["steps"][t]["faults"] = {n: {str(k): f}}
                yield p


class C06(KillCheck):
    world = C06World
    share, cap = 0.06, 6

    def pick(self, rng, ops):
        # mostly inside the part where functions run and log
        lo = next((i for i, (n, k, e) in enumerate(ops) if e[3].endswith(".log.json")), 0)
        if rng.random() < 0.4:
            logs = [o for o in ops if o[2][3].endswith(".log.json")]
            if logs:
                return rng.choice(logs)
        return rng.choice(ops[lo:]) if rng.random() < 0.85 else rng.choice(ops)


# ---- C07 --------------------------------------------------------------------------------------------------------------------------
class C07World(RunWorld):
    def after_phase(self, i, st, ph):
        if not self.progress(i, ph):
            return
        for r in self.runs_of(i, st, ph):
            if r.dir is None or not os.path.isdir(self.sim.p(r.dir)):
                continue
            if r.st == "ok":
                self.complete(r)
            self.check_logged(r, "snapshot missing")

    def complete(self, r):
        files = self.entries(r.dir)
        snaps = self.snapshots_of(r)
        save = r.c.get("save")
        v = r.r["val"]
        if snaps and (v["n"], v["canon"]) != snaps[-1]:
            self.bad("wrong data returned", "%s returned data that is not what its last function produced" % r)
            return
        if not self.check_final(r, snaps, "wrong final results"):
            return
        if save is None:
            return
        want = {i for i in range(len(snaps)) if K.selected(save, i)}
        got = {}
        for f in files:
            m = re.match(r"(\d+)(\D|$)", f)
            if m and f.endswith(".pickle"):
                got.setdefault(int(m.group(1)), []).append(f)
        if set(got) != want:
            self.bad("wrong snapshots", "%s with strategy %r and %d functions saved after functions %s, expected %s" % (r, save, len(snaps), sorted(got), sorted(want)))
            return
        for i in sorted(want):
            if not self.check_snapshot(r, files, i, snaps[i], "wrong snapshots", "(completed)"):
                return
        extra = {int(f.split(".")[0]) for f in self.entries(r.dir + "/follow") if f.split(".")[0].isdigit()}
        if extra - set(range(len(snaps))) or (not r.c.get("follow") and extra):
            self.bad("wrong snapshots", "%s: followed datasets for functions %s" % (r, sorted(extra)))


class C07(KillCheck):
    world = C07World
    share, cap = 0.08, 5

    def command(self, rng, dirs):
        cfg = K.config(rng, 1, 6)
        c = run_cmd(rng, "s0", cfg)
        n = len(K.cfg_functions(cfg))
        c["save"] = K.strategy(rng, n)
        if rng.random() < 0.5:
            c["follow"] = follow_name(rng, dirs, "s0") if rng.random() < 0.8 else rng.choice([".spold", "f", "/s0/"])
            if rng.random() < 0.7:
                c["save"] = 1
        return c

    def pick(self, rng, ops):
        lo = next((i for i, (n, k, e) in enumerate(ops) if e[2] == "mark"), 0)
        if rng.random() < 0.5:
            pk = [o for o in ops[lo:] if o[2][3].endswith(".pickle")]
            if pk:
                return rng.choice(pk)
        return rng.choice(ops[lo:]) if rng.random() < 0.9 else rng.choice(ops)


# ---- C12 ----------------------------------------------------------------------------------------------------------------------------
class C12World(RunWorld):
    quiet = "/assets"

    def after_phase(self, i, st, ph):
        if not self.progress(i, ph):
            return
        for r in self.runs_of(i, st, ph):
            planned = [f for f in r.functions() if f.get("raise")]
            if r.st == "ok":
                if planned:
                    self.bad("error swallowed", "%s returned normally although function %s raised %s" % (r, planned[0]["n"], planned[0]["raise"]))
                    return
                if r.fired:
                    if any(f[3].endswith(".log.json") for f in r.fired):      # a log line that could not be written is reported by logging itself
                        continue
                    want = self.alone(r)
                    if want["st"] != "ok":
                        continue
                    v = r.r["val"]
                    f = r.fired[0]
                    at = "%s on %s %s" % (f[4], f[2], f[3])
                    if (v["n"], v["canon"]) != (want["n"], want["canon"]):
                        self.bad("wrong data", "%s returned %d datasets, not the right ones, after %s" % (r, v["n"], at))
                        return
                    d = tree_diff(want["tree"], self.normal(r.dir)) if r.dir and os.path.isdir(self.sim.p(r.dir)) else "no output directory"
                    if d:
                        self.bad("failure reported as success", "%s returned normally after %s, but its output is not complete: %s" % (r, at, d))
                        return
            elif not r.fired:
                if planned and r.st == "exc":
                    f = planned[0]
                    if r.r["type"] != f["raise"] or ("planned failure " + f["u"]) not in r.r["msg"]:
                        self.bad("error changed", "%s: function raised %s, the caller saw %s" % (r, f["raise"], r.outcome()))
                        return
                elif planned and r.st == "exit" and planned[0]["raise"] == "SystemExit":
                    pass
                elif self.alone(r)["st"] == "ok" or planned:
                    self.bad("run failed", "%s ended with %s without any fault" % (r, r.outcome()))
                    return
            if r.st != "ok" and r.st != "none" and r.dir and os.path.isdir(self.sim.p(r.dir)):
                self.check_logged(r, "false claim in log")


class C12(KillCheck):
    world = C12World
    share, cap = 0.06, 6
    KINDS = ["fail", "fail", "fail", "limit", "full"]
    N = (11, 34)

    def command(self, rng, dirs):
        cfg = K.config(rng, 1, 4)
        if rng.random() < 0.3:
            f = rng.choice(K.cfg_functions(cfg))
            f["raise"] = rng.choice(["ValueError", "KeyError", "WorkloadError", "SystemExit", "StopIteration", "MemoryError", "RuntimeError", "OSError", "PermissionError", "AssertionError"])
            f["form"] = "plain"
        c = run_cmd(rng, "s0", cfg, follow_name(rng, dirs, "s0"))
        if rng.random() < 0.5:
            c["save"] = 1
        return c

    def base(self, rng):
        p = KillCheck.base(self, rng)
        if rng.random() < 0.3:
            p["quiet"] = "/no such thing/"           # copying the report's assets can fail as well
        return p

    def explore(self, rng, tier):
        plan = self.draw(rng)
        res = yield plan
        t = next(i for i, st in enumerate(plan["steps"]) if st.get("tag") == "target")
        last = len(plan["steps"][t]["nodes"][0]["cmds"]) - 1
        t, ph, ops = target_ops(plan, res, cmd=last)
        ops = [o for o in ops if not o[2][3].endswith(".log.json") and o[2][2] not in ("mark", "cmd", "start", "sleep") and not o[2][2].startswith("pool.")]
        writes = [o for o in ops if o[2][2] in ("write", "rename", "mkdir", "fsync", "truncate") or o[2][2] == "open" and o[2][5] & 3]
        for _ in range(self.N[0] if tier == "quick" else self.N[1]):
            p = copy.deepcopy(plan)
            faults = {}
            for _ in range(rng.choice([1, 1, 1, 2])):
                n, k, e = rng.choice(writes) if writes and rng.random() < 0.6 else rng.choice(ops)
                f = K.fault_for(rng, e, self.KINDS)
                if f:
                    faults.setdefault(n, {})[str(k)] = f
            if faults:
                p["steps"][t]["faults"] = faults
                yield p


# ---- C13 ------------------------------------------------------------------------------------------------------------------------------
class C13World(RunWorld):
    def before_phase(self, i, st):
        RunWorld.before_phase(self, i, st)
        self.tree0 = {k: v for k, v in self.sim.tree(".").items() if not k.startswith("data/Ocelot/cache")}

    def after_phase(self, i, st, ph):
        if not self.progress(i, ph):
            return
        for nd in st["nodes"]:
            root = self.node_root(nd)
            wins = self.windows(ph, nd["id"])
            for k, c in enumerate(nd["cmds"]):
                if k >= len(wins):
                    break
                lo, hi = wins[k][0], wins[k][1] or 10 ** 12
                evs = [e for e in ph.events if self.base(e[1]) == nd["id"] and lo < e[0] < hi]
                if c["do"] in ("run", "extract"):
                    self.judge(i, nd, k, c, evs, root)
                elif c["do"] == "validate":
                    self.judge_validate(i, nd, k, c, evs)
        now = self.sim.tree(".")
        for k, v in self.tree0.items():
            if now.get(k, "gone") != v:
                self.bad("damage", "phase %d: %s was %s" % (i, k, "deleted" if k not in now else "changed"))
                return

    @staticmethod
    def mutates(e):
        return (e[2] in MUTATING or e[2] == "open" and (e[5] & 3 or e[5] & 0o1000)) and (e[8] >= 0 and e[7] != "die" or e[7] == "denied")

    def judge(self, i, nd, k, c, evs, root):
        ok_dirs = {root, "data/Ocelot/cache", "data/Ocelot/model-runs"}
        anc = set()
        for d in ok_dirs:
            while d and d != ".":
                anc.add(d); d = os.path.dirname(d)
        own = []
        roots = {root, "data/Ocelot/model-runs"}
        for e in evs:
            if not self.mutates(e):
                continue
            if e[2] == "mkdir":
                if e[3] in anc:
                    continue
                if c["do"] == "run" and os.path.dirname(e[3]) in roots:
                    own.append(e[3])
                    continue
            for p in (e[3], e[4]) if e[2] in ("rename", "link") else (e[3],):
                if p.startswith("data/Ocelot/cache/") or any(p == d or p.startswith(d + "/") for d in own):
                    continue
                self.bad("write outside", "phase %d %s command %d (%s %s): %s of %s, which is neither its output directory nor the cache" % (i, nd["id"], k, c["do"], c["src"], e[2], p))
                return

    def judge_validate(self, i, nd, k, c, evs):
        for e in evs:
            if e[3].startswith("data/Ocelot/cache") and e[2] in ("open", "read", "write", "rename", "unlink", "listdir"):
                self.bad("validation used the cache", "phase %d: %s of %s" % (i, e[2], e[3]))
                return
            if self.mutates(e) and not (os.path.dirname(e[3]) == nd.get("cwd", ".") and not e[3].startswith(c["src"] + "/")):
                self.bad("write outside", "phase %d validation of %s: %s of %s" % (i, c["src"], e[2], e[3]))
                return


class C13(K.BaseCheck):
    world = C13World
    share, byname, cap = 0.08, 0.5, 3

    def base(self, rng):
        dirs = K.sources(rng, 2, 1, 4)
        env = rng.choice(ENVS)
        plan = {"seed": rng.randrange(2 ** 40), "clock": K.clock(rng), "dirs": dirs, "gap": 3 * NSEC, "env": env, "steps": [{"t": "decoy", "n": rng.randrange(3)}]}
        K.ages(rng, plan)
        if rng.random() < 0.3:
            plan["links"] = {"ln": "s1"}
        if rng.random() < 0.3:
            plan["quiet"] = "/no such thing/"
        S = plan["steps"]
        u = 0
        for _ in range(rng.choice([1, 2])):
            nodes = []
            for n in range(rng.choice([1, 1, 2])):
                cmds = []
                for k in range(rng.randint(1, 3)):
                    src = rng.choice(list(dirs) + list(plan.get("links", {})))
                    x = rng.random()
                    if x < 0.15:
                        cmds.append({"do": "validate", "src": src, "cli": rng.random() < 0.3})
                    elif x < 0.25:
                        cmds.append({"do": "extract", "src": src, "use_cache": rng.random() < 0.7, "use_mp": rng.random() < 0.5})
                    else:
                        cfg = K.config(rng, 1, 3, start=10 * u); u += 1
                        if rng.random() < 0.2:
                            f = rng.choice(K.cfg_functions(cfg)); f["raise"] = rng.choice(["ValueError", "KeyboardInterrupt"]); f["form"] = "plain"
                        cmds.append(run_cmd(rng, src, cfg, rng.choice([follow_name(rng, dirs, "s0"), "..", "/", ".spold", "s0", "s0/f1.spold"])))
                nodes.append({"id": "n%d" % n, "cpus": rng.randint(1, 2), "cwd": rng.choice(["cwd", "cwd", "s0"]) if not env.get("OCELOT_OUTPUT", "").startswith("rel") else "cwd", "cmds": cmds})
            S.append({"t": "phase", "tag": "target", "nodes": nodes, "order": rng.randrange(2), "sched": K.schedule(rng)})
        return plan

    def explore(self, rng, tier):
        plan = self.draw(rng)
        res = yield plan
        t = next(i for i, s in enumerate(plan["steps"]) if s.get("tag") == "target")
        ph = res["phases"][0]
        for _ in range(5 if tier == "quick" else 14):
            p = copy.deepcopy(plan)
            nid = rng.choice(p["steps"][t]["nodes"])["id"]
            ops = [(k, e) for k, e in enumerate(e for e in ph.events if e[1] == nid) if e[2] not in ("cmd", "start")]
            if not ops:
                continue
            faults = {}
            for _ in range(rng.choice([1, 1, 2])):
                k, e = rng.choice(ops)
                f = K.fault_for(rng, e, ["fail", "fail", "int", "int_after", "full", "limit"])
                if f:
                    faults[str(k)] = f
            p["steps"][t]["faults"] = {nid: faults}
            p["steps"][t]["sched"] = K.schedule(rng)
            yield p
