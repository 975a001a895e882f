"""Runs simulations of one check in one interpreter (one hash seed class), or replays / minimises a plan."""
import argparse
import copy
import gc
import importlib
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DST_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
import common as K  # noqa: E402

MODULES = {"C01": "c_cache", "C02": "c_cache", "C08": "c_cache", "C03": "c_runs", "C04": "c_runs", "C05": "c_runs",
           "C06": "c_runs", "C07": "c_runs", "C12": "c_runs", "C13": "c_runs", "C11": "c_report", "C09": "c_cleanup", "C10": "c_det", "C14": "c_validate", "C15": "c_process"}


def scratch():
    for d in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return tempfile.mkdtemp(prefix="dst-", dir=d)
    raise SystemExit("no scratch directory")


class Runner:
    def __init__(self, check):
        import node
        node.preload()
        import sim
        import world
        self.sim, self.UNREADABLE = sim, world.UNREADABLE
        self.check = getattr(importlib.import_module(MODULES[check]), check)()
        self.top = scratch()
        self.n = 0
        gc.collect(); gc.freeze(); gc.disable()

    def execute(self, plan):
        """One simulated execution: a pure function of the plan (and of the code under test)."""
        base = os.path.join(self.top, "w")
        shutil.rmtree(base, ignore_errors=True)
        os.mkdir(base)
        w = self.check.world(plan, base)
        try:
            w.run()
        finally:
            w.sim.close()
        self.n += 1
        if self.n % 50 == 0:
            gc.collect()
        return w.result

    def attempt(self, plan):
        for k in range(3):
            try:
                return self.execute(plan)
            except self.sim.HarnessError:
                if k == 2:
                    raise
                time.sleep(0.5)

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)

    # ---- minimisation ------------------------------------------------------------------------------------------------
    def minimise(self, plan, cls, deadline):
        cur = copy.deepcopy(plan)
        tried = 0
        # make the schedule explicit first
        res = self.attempt(cur)
        explicit = copy.deepcopy(cur)
        phs = [st for st in explicit["steps"] if st["t"] == "phase"]
        for st, ph in zip(phs, res["phases"]):
            st["sched"] = {"kind": "list", "runs": ph.sched}
        if self.same(explicit, cls):
            cur = explicit
        progress = True
        while progress and time.time() < deadline and tried < 400:
            progress = False
            for cand in self.shrinks(cur):
                if time.time() > deadline or tried >= 400:
                    break
                tried += 1
                if self.same(cand, cls):
                    cur = cand
                    progress = True
                    break
        return cur, tried

    def same(self, plan, cls):
        try:
            res = self.attempt(plan)
        except Exception:
            return False
        return any(v["cls"] == cls for v in res["viol"])

    def shrinks(self, plan):
        yield from self.check.shrinks(plan)
        # generic: drop steps, edits, faults, nodes, commands, files; merge schedule runs
        def variant(fn):
            p = copy.deepcopy(plan)
            if fn(p) is False:
                return None
            return p
        n = len(plan["steps"])
        for i in range(n):
            p = copy.deepcopy(plan); del p["steps"][i]; yield p
        for i, st in enumerate(plan["steps"]):
            if st["t"] != "phase":
                continue
            for j in range(len(st.get("edits", []))):
                p = copy.deepcopy(plan); del p["steps"][i]["edits"][j]; yield p
            for nid, fs in st.get("faults", {}).items():
                for k in list(fs):
                    p = copy.deepcopy(plan); del p["steps"][i]["faults"][nid][k]; yield p
            if len(st["nodes"]) > 1:
                for j in range(len(st["nodes"])):
                    p = copy.deepcopy(plan); del p["steps"][i]["nodes"][j]; yield p
            for j, nd in enumerate(st["nodes"]):
                if len(nd["cmds"]) > 1:
                    for k in range(len(nd["cmds"])):
                        p = copy.deepcopy(plan); del p["steps"][i]["nodes"][j]["cmds"][k]; yield p
                for k, c in enumerate(nd["cmds"]):
                    if isinstance(c.get("config"), list) and len(c["config"]) > 1:
                        for q in range(len(c["config"])):
                            p = copy.deepcopy(plan); del p["steps"][i]["nodes"][j]["cmds"][k]["config"][q]; yield p
        for d, fs in plan.get("dirs", {}).items():
            if len(fs) > 1:
                for f in list(fs):
                    p = copy.deepcopy(plan); del p["dirs"][d][f]; yield p
        for i, st in enumerate(plan["steps"]):
            if st["t"] == "phase" and st.get("sched", {}).get("kind") == "list":
                runs = st["sched"]["runs"]
                m = len(runs)
                size = m // 2
                while size >= 1:
                    for a in range(0, m - size + 1, max(1, size)):
                        p = copy.deepcopy(plan); del p["steps"][i]["sched"]["runs"][a:a + size]; yield p
                    if size <= 2 or m > 60 and size <= m // 16:
                        break
                    size //= 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode", choices=["explore", "replay", "determinism"])
    ap.add_argument("--check", required=True)
    ap.add_argument("--cls", type=int, default=0)
    ap.add_argument("--ncls", type=int, default=8)
    ap.add_argument("--runs", type=int, default=10)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--deadline", type=float, default=100)
    ap.add_argument("--out", required=True)
    ap.add_argument("--plan")
    a = ap.parse_args()
    t0 = time.time()
    R = Runner(a.check)
    out = {"check": a.check, "cls": a.cls, "executions": 0, "seeds": 0, "stats": {}, "sim_ns": 0, "steps": 0, "shapes": [],
           "nontrivial": [], "samples": [], "viol": None, "error": None, "capped": False, "states": []}

    def emit():
        out["wall"] = time.time() - t0
        tmp = a.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(out, f)
        os.replace(tmp, a.out)
    try:
        if a.mode == "replay":
            plan = json.load(open(a.plan))["plan"]
            res = R.attempt(plan)
            out.update(viol=res["viol"], digest=res["digest"])
            if os.environ.get("DST_DUMP"):
                with open(os.environ["DST_DUMP"], "w") as f:
                    for i, ph in enumerate(res["phases"]):
                        for e in ph.events:
                            f.write("%d %r\n" % (i, e))
            emit()
            return
        if a.mode == "determinism":
            digs = []
            for r in range(a.start, a.start + a.runs):
                rng = random.Random(R.sim.h64(a.check, a.seed, r))
                g = R.check.explore(rng, a.tier)
                plan = next(g)
                while True:
                    plan.setdefault("check", a.check)
                    res = R.attempt(plan)
                    digs.append(res["digest"])
                    try:
                        plan = g.send(res)
                    except StopIteration:
                        break
            out["digests"] = digs
            emit()
            return
        shapes, nontriv = set(), set()
        for r in range(a.cls, a.runs * a.ncls, a.ncls):
            if time.time() - t0 > a.deadline:
                out["capped"] = True
                break
            rng = random.Random(R.sim.h64(a.check, a.seed, r))
            out["seeds"] += 1
            g = R.check.explore(rng, a.tier)
            plan = next(g)
            plan["entry"] = getattr(R.check, "entry", None)
            K.enlarge(plan, a.check)
            plan.pop("entry", None)
            left = 10 ** 6
            while plan is not None and left:
                left = min(left, plan.get("cap", left)) - 1
                K.surroundings(plan)
                plan.update(check=a.check, hashseed=os.environ.get("PYTHONHASHSEED", "0"), run=r, verif_seed=a.seed)
                res = R.attempt(plan)
                out["executions"] += 1
                for k, v in res["stats"].items():
                    out["stats"][k] = out["stats"].get(k, 0) + v
                out["sim_ns"] += res["sim_ns"]; out["steps"] += res["steps"]
                shapes.add(res["shape"])
                fired = [x for ph in res["phases"] for x in ph.fired]
                edits = sum(len(ph.edits_done) for ph in res["phases"])
                switches = sum(max(0, len(ph.sched) - 1) for ph in res["phases"])
                out["stats"]["edit during a phase"] = out["stats"].get("edit during a phase", 0) + edits
                if fired or edits or switches > 2 or R.check.nontrivial(plan, res):
                    nontriv.add(res["shape"])
                if len(out["samples"]) < 2 and (fired or edits or switches > 2) and r % 3 == 0:
                    s = json.dumps(plan)
                    out["samples"].append({"plan": json.loads(s) if len(s) < 6000 else s[:3000], "fired": [list(map(str, f)) for f in fired][:5],
                                           "schedule": [ph.sched[:12] for ph in res["phases"]][:3]})
                if res["viol"]:
                    v = res["viol"][0]
                    small, tried = R.minimise(plan, v["cls"], time.time() + 60) if not v["cls"].startswith(R.UNREADABLE) else (plan, 0)
                    fin = R.attempt(small)
                    vv = next((x for x in fin["viol"] if x["cls"] == v["cls"]), None)
                    if vv is None:
                        small, fin, vv = plan, R.attempt(plan), v
                    trace = [[list(map(str, e)) for e in ph.events if e[7] != "go"] + ph.sched[:60] for ph in fin["phases"]]
                    out["viol"] = {"violation": vv, "first": v, "plan": small, "digest": fin["digest"], "tried": tried,
                                   "fault_trace": trace, "orig_steps": len(plan["steps"])}
                    break
                try:
                    plan = g.send(res)
                except StopIteration:
                    plan = None
                except (AttributeError, LookupError, TypeError, ValueError):   # no faults can be chosen from what this execution did
                    out["stuck"] = traceback.format_exc()
                    plan = None
            if out["viol"]:
                break
        if out.get("stuck") and not out["viol"]:
            out["error"] = out["stuck"]
        out["shapes"] = sorted(shapes); out["nontrivial"] = sorted(nontriv)
        emit()
    except BaseException:
        out["error"] = traceback.format_exc()
        emit()
        raise
    finally:
        R.close()


if __name__ == "__main__":
    main()
