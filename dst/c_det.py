"""C10: the same dataset files give the same linked database, whatever the order, hash seed, workers, cache and history."""
import copy
import json
import math
import os
import re

import common as K
import rich
from sim import NSEC
from world import World

OWN_ID = re.compile(r"^[0-9a-f]{8}-0000-4000-8000-")
PY = "ocelot.transformations."
EXTRA = {
    "recalc": [PY + "parameterization.recalculate_all_parameterized_datasets"],
    "names": [PY + "fix_ecoinvent_parameters", PY + "pv_cleanup", PY + "parameterization.recalculate_all_parameterized_datasets"],
    "props": [PY + "ensure_ids_are_unique", PY + "ensure_mandatory_properties", PY + "variable_names_are_unique"],
}
MODELS = ["cutoff", "cutoff", "cutoff", "cutoff_ecoinvent_row", "cutoff_ecoinvent_row", "consequential", "consequential", None]
IDENT = [{"u": "i0", "n": "first", "doc": "", "kind": "ident"}]


# ---- comparison up to list order, rounding and fresh identifiers ----------------------------------------------------------
def fold(x, key=None, inparams=False):
    """A form whose repr sorts stably: lists sorted, floats rounded, fresh parameter ids dropped."""
    if isinstance(x, dict):
        return tuple(sorted((str(k), fold(v, k)) for k, v in x.items() if not (inparams and k == "id" and not OWN_ID.match(str(v)))))
    if isinstance(x, (list, tuple)):
        return tuple(sorted((fold(v, None, key == "parameters") for v in x), key=repr))
    if isinstance(x, (set, frozenset)):
        return tuple(sorted(map(repr, x)))
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (int, float)):
        x = float(x)
        return float("%.9g" % x) + 0.0 if math.isfinite(x) else str(x)
    return str(x)


def skel(x):
    if isinstance(x, tuple):
        return "(" + ",".join(map(skel, x)) + ")"
    return "F" if isinstance(x, float) else repr(x)


def close(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return math.isclose(a, b, rel_tol=1e-7, abs_tol=1e-12)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        if all(close(p, q) for p, q in zip(a, b)):
            return True
        if a and isinstance(a[0], tuple) and len(a[0]) == 2 and isinstance(a[0][0], str):      # a dictionary
            return False
        left = list(b)
        for p in a:
            for q in left:
                if close(p, q):
                    left.remove(q)
                    break
            else:
                return False
        return True
    return a == b


def difference(A, B):
    """None or a description; A and B are folded databases."""
    if A == B:
        return None
    ra, rb = {}, {}
    for r, X in ((ra, A), (rb, B)):
        for d in X:
            r.setdefault(repr(d), [0, d])[0] += 1
    xa = [v[1] for k, v in ra.items() for _ in range(max(0, v[0] - rb.get(k, [0])[0]))]
    xb = [v[1] for k, v in rb.items() for _ in range(max(0, v[0] - ra.get(k, [0])[0]))]
    sb = {}
    for d in xb:
        sb.setdefault(ident(d), []).append(d)
    lone = []
    for d in xa:
        for e in sb.get(ident(d), []):
            if close(d, e):
                sb[ident(d)].remove(e)
                break
        else:
            lone.append(d)
    rest = [e for v in sb.values() for e in v]
    if not lone and not rest:
        return None
    msg = "%d datasets against %d; " % (len(A), len(B))
    if lone:
        d = lone[0]
        twin = next((e for e in rest if ident(e) == ident(d)), None)
        if twin is not None:
            ks = [k for (k, v), (_, w) in zip(d, twin) if not close(v, w)] if [k for k, _ in d] == [k for k, _ in twin] else ["fields"]
            msg += "%s differs in %s" % ("/".join(ident(d)), ", ".join(ks[:4]))
            if ks and ks[0] != "fields":
                msg += ": %.300s | %.300s" % first_diff(dict(d)[ks[0]], dict(twin)[ks[0]])
        else:
            msg += "only in the first: %s" % ("/".join(ident(d)))
    else:
        msg += "only in the second: %s" % ("/".join(ident(rest[0])))
    return msg


def first_diff(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        x = [v for v in a if not any(close(v, w) for w in b)]
        y = [v for v in b if not any(close(v, w) for w in a)]
        if x and y and len(a) == len(b):
            return repr(x[0]), repr(y[0])
        return repr(x or a), repr(y or b)
    return repr(a), repr(b)


def ident(d):
    m = dict(d)
    return tuple(str(m.get(k)) for k in ("name", "location", "reference product", "type", "id"))


# ---- world -------------------------------------------------------------------------------------------------------------------
class DetWorld(World):
    def build(self):
        self.plan.setdefault("dirs", {})
        self.blobs = {}
        for d, spec in self.plan["dbs"].items():
            fs = rich.files(spec["seed"], spec.get("size", 1.0))
            for f in spec.get("drop", []):
                fs.pop(f, None)
            self.blobs[d] = fs
            self.sim.u_mkdir(d)
            for f, b in fs.items():
                self.sim.u_write(d + "/" + f, b)
        self.sim.advance(3 * NSEC)
        self.ref = {}
        self.nok = self.nerr = 0

    def prepare(self):
        self.sim.stats["generated datasets"] = sum(b.count(b"<childActivityDataset>") for b in self.blobs["db"].values())

    def after_phase(self, i, st, ph):
        if ph.hung or ph.deadlock:
            self.bad("no progress", "phase %d: hung=%s deadlock=%s" % (i, ph.hung, ph.deadlock))
            return
        for nd in st["nodes"]:
            res = ph.results[nd["id"]]
            for k, c in enumerate(nd["cmds"]):
                if k >= len(res) or c["do"] != "run" or c.get("aside"):
                    continue
                r = res[k]
                what = "phase %d %s command %d (%s on %s%s%s%s, hash seed %s, listing order %s, %s processes)" % (
                    i, nd["id"], k, c.get("config"), c["src"], ", cached" if c.get("use_cache", True) else ", uncached", ", CLI" if c.get("cli") else "",
                    ", save %s follow %s" % (c.get("save"), c.get("follow")) if c.get("save") or c.get("follow") else "",
                    nd.get("hs", self.plan.get("hashseed")), st.get("order", 0), nd.get("cpus"))
                key = (c["src"], json.dumps(c.get("config") or "cutoff"))
                ok = r["st"] == "ok"
                data = None
                if ok:
                    data = self.cli_data(nd, k, ph) if c.get("cli") else r["val"]["data"]
                    if data is None:
                        continue
                    self.nok += 1
                    data = sorted((fold(d) for d in data), key=repr)
                else:
                    self.nerr += 1
                old = self.ref.setdefault(key, (what, ok, data, r))
                if old[0] == what:
                    continue
                if old[1] != ok:
                    a, b = (old[0], old[3]), (what, r)
                    self.bad("one run fails", "%s ended with %s, but %s with %s" % (a[0], short(a[1]), b[0], short(b[1])))
                elif ok:
                    d = difference(old[2], data)
                    if d:
                        self.bad("databases differ", "%s and %s: %s" % (old[0], what, d))

    def before_phase(self, i, st):
        self.had = set(self.entries(self.out_root()))

    def cli_data(self, nd, k, ph):
        """The final results of the only run of this phase."""
        for d in self.entries(self.out_root()):
            if d not in self.had:
                return self.unpickle("%s/%s/final-results.pickle" % (self.out_root(), d))
        self.bad("databases differ", "a CLI run ended normally without results")


def short(r):
    return r["st"] if r["st"] == "ok" else "%s %s (%s)" % (r.get("type", r["st"]), r.get("msg", "")[:150], r.get("where", ""))


class C10(K.BaseCheck):
    world = DetWorld

    def nontrivial(self, plan, res):
        return True

    def explore(self, rng, tier):
        x = rng.random()
        cfgs = [rng.choice(MODELS)]
        if rng.random() < 0.3:
            cfgs = rng.sample(["cutoff", "cutoff_ecoinvent_row", "consequential"], 2)
        if x < 0.15:
            cfgs.append({"fns": EXTRA[rng.choice(list(EXTRA))]})
        plan = {"seed": rng.randrange(2 ** 40), "clock": K.clock(rng), "steps": [],
                "dbs": {"db": {"seed": rng.randrange(2 ** 32), "size": rng.choice([0.5, 1.0, 1.0, 1.5])}, "other": {"seed": rng.randrange(2 ** 32), "size": 0.5}},
                "quiet": "/assets"}
        follow = rng.choice(sorted(rich.files(plan["dbs"]["db"]["seed"], plan["dbs"]["db"]["size"])))
        S = plan["steps"]

        def run(c, **kw):
            d = {"do": "run", "src": "db", "config": c, "use_cache": False}
            d.update(kw)
            if rng.random() < 0.2:
                d["save"] = rng.choice([1, "2", "3:9"])
            if rng.random() < 0.2:
                d["follow"] = follow
            return d

        def aside(kind):
            if kind == 0:
                return run(rng.choice(["cutoff", "cutoff_ecoinvent_row", "consequential"]), src="other", aside=1)
            if kind == 1:
                return run(rng.choice(["cutoff", "cutoff_ecoinvent_row", "consequential"]))
            if kind == 2:
                return run([dict(IDENT[0], **{"raise": "ValueError"})], aside=1)
            if kind == 3:
                return {"do": "extract", "src": "db", "use_cache": rng.random() < .5, "use_mp": rng.random() < .3, "scribble": True}
            if kind == 4:                         # stopped half way: a function fails, or CTRL-C
                return run({"real": rng.choice(["cutoff", "cutoff_ecoinvent_row", "consequential"]), "upto": rng.randint(1, 25)}, src=rng.choice(["db", "other"]), aside=1)
            if kind == 5:
                return run(rng.choice(["cutoff", "cutoff_ecoinvent_row", "consequential"]), src=rng.choice(["db", "other"]), aside=1, int_call=["*", int(10 ** rng.uniform(1, 6))])
            return run(cfgs[0])
        S.append({"t": "phase", "order": 0, "nodes": [{"id": "n0", "cpus": 2, "cmds": [{"do": "run", "src": "db", "config": c, "use_cache": False}]}
                                                       for c in cfgs[:1]]})
        # the same files in other orders and interpreters, after other work, from the cache
        for k in range(rng.randint(2, 3) if tier == "quick" else rng.randint(3, 6)):
            hs = rng.choice([0, 0, 1, 2, 3, 4]) if k else rng.choice([1, 2, 3, 4])
            cmds = []
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                cmds.append(aside(rng.randrange(7)))
            for c in cfgs:
                cmds.append(run(c, use_cache=rng.random() < 0.6))
            if rng.random() < 0.2 and isinstance(cfgs[0], (str, type(None))):
                cmds = [run(cfgs[0], cli=True, use_cache=True)]
                cmds[0].pop("use_cache")
            nd = {"id": "n0", "cpus": rng.randint(1, 4), "cmds": cmds}
            if hs:
                nd["hs"] = 100 + hs
            S.append({"t": "phase", "order": rng.randrange(1, 6), "sched": K.schedule(rng), "nodes": [nd]})
            S.append({"t": "wait", "ns": rng.choice([10 ** 6, 3 * NSEC])})
        yield plan

    def shrinks(self, plan):
        for d in ("other", "db"):
            if d == "other" and not any(c.get("src") == "other" for st in plan["steps"] if st["t"] == "phase" for n in st["nodes"] for c in n["cmds"]):
                continue
            spec = plan["dbs"][d]
            names = [f for f in sorted(rich.files(spec["seed"], spec.get("size", 1.0))) if f not in spec.get("drop", [])]
            n = len(names) // 2
            while n >= 1:
                for a in range(0, len(names), n):
                    p = copy.deepcopy(plan)
                    p["dbs"][d].setdefault("drop", []).extend(names[a:a + n])
                    yield p
                if n <= 1:
                    break
                n //= 2
        for i, st in enumerate(plan["steps"]):
            for nd in st.get("nodes", []):
                for c in nd["cmds"]:
                    for k in ("save", "follow"):
                        if k in c:
                            p = copy.deepcopy(plan)
                            for c2 in p["steps"][i]["nodes"][0]["cmds"]:
                                c2.pop(k, None)
                            yield p
