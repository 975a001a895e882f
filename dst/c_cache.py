"""C01 cache freshness, C02 cache under crashes and faults, C08 extraction under scheduling and read faults."""
import copy
import os

import common as K
import gen
from sim import NSEC
from world import DAY, SPOLD, World, canon_list, canon_set, diff, expect

IDENT = [{"u": "i0", "n": "first", "doc": "", "kind": "ident"}]


class CacheWorld(World):
    """Every command that ends normally must have worked on the right data."""
    faulty_ok = False

    def after_phase(self, i, st, ph):
        if ph.hung or ph.deadlock:
            self.bad("no progress", "phase %d: hung=%s deadlock=%s" % (i, ph.hung, ph.deadlock))
            return
        for nd in st["nodes"]:
            wins = self.windows(ph, nd["id"])
            res = ph.results[nd["id"]]
            for k, c in enumerate(nd["cmds"]):
                if k >= len(res):
                    break
                if c["do"] not in ("run", "extract"):
                    continue
                self.judge(i, st, ph, nd, k, c, res[k], wins[k])
            self.compare(i, st, ph, nd, res)

    def disturbed(self, c, win):
        """Did the sources change while the command ran?"""
        return len(self.snapshots(win[0], win[1])) > 1

    def judge(self, i, st, ph, nd, k, c, r, win):
        what = "phase %d %s command %d (%s %s%s)" % (i, nd["id"], k, c["do"], c["src"], "" if c.get("use_cache", True) else ", no cache")
        faulted = bool(ph.fired)
        if r["st"] == "ok":
            self.judge_data(c["src"], r["val"]["data"], win[0], win[1], what)
            self.judge_paths(c, r["val"]["data"], what)
            return
        if faulted or self.disturbed(c, win):
            return
        want = expect(self.model(c["src"]), self.small)
        if not want:
            return                       # a source file is cut short, or there are none: an error is right
        self.bad("run failed", "%s ended with %s" % (what, {x: y for x, y in r.items() if x != "val"}))

    def judge_paths(self, c, data, what):
        want = os.path.normpath(gen.spelled(self.sim.root, c))
        for ds in data:
            if os.path.dirname(ds["filepath"]) != want:
                self.bad("wrong data", "%s: dataset path %s is not in %s" % (what, self.sim._rel(ds["filepath"]), c["src"]))
                return

    def compare(self, i, st, ph, nd, res):
        """A cached and an uncached extraction of the same unchanged directory in one phase agree completely."""
        if st.get("edits") or ph.fired:
            return
        seen = {}
        for c, r in zip(nd["cmds"], res):
            if c["do"] == "extract" and r["st"] == "ok":
                seen.setdefault(os.path.normpath(gen.spelled("", c)), []).append(canon_set(r["val"]["data"]))
        for src, xs in seen.items():
            for x in xs[1:]:
                if x != xs[0]:
                    self.bad("wrong data", "phase %d: extractions of unchanged %s differ: %s" % (i, src, diff(xs[0], x)))


def cmd(rng, src, cache=True, cli=False):
    if rng.random() < 0.6:
        return {"do": "extract", "src": src, "use_cache": cache, "use_mp": rng.random() < 0.35, "scribble": rng.random() < 0.5}
    return {"do": "run", "src": src, "use_cache": cache, "config": IDENT, "scribble": rng.random() < 0.5}


def node(rng, cmds, nid="n0"):
    return {"id": nid, "cpus": rng.randint(1, 3), "cmds": cmds, "cwd": "cwd"}


class C01(K.BaseCheck):
    world = CacheWorld

    def edit(self, rng, dirs, links, vs, plan):
        d = rng.choice([x for x in dirs if not x.startswith("alt")] or dirs)
        files = [f for f in plan["dirs"][d]]
        vs[0] += 1
        v = vs[0]
        old = plan["clock"]["start"] - rng.choice([0, 1, 3600, 86400 * 30]) * NSEC - rng.randrange(10 ** 6)
        f = rng.choice(files + ["f%d.spold" % rng.randrange(8)])
        k = rng.choice(["write", "write", "replace", "replace", "preplace", "preplace", "pwrite", "rm", "rm", "mv", "add", "swap", "pswap", "relink", "touch", "hidden"])
        if k == "write":
            return {"e": "write", "d": d, "f": f, "v": v}
        if k == "pwrite":
            return {"e": "write", "d": d, "f": f, "v": v, "mtime": old}
        if k == "replace":
            return {"e": "replace", "d": d, "f": f, "v": v}
        if k == "preplace":
            return {"e": "replace", "d": d, "f": f, "v": v, "mtime": old}
        if k == "add":
            return {"e": rng.choice(["write", "replace"]), "d": d, "f": "n%d.spold" % v, "v": v, "mtime": rng.choice([None, old])}
        if k == "hidden":
            return {"e": "write", "d": d, "f": ".h%d.spold" % rng.randrange(2), "v": v, "mtime": rng.choice([None, old])}
        if k == "rm":
            return {"e": "rm", "d": d, "f": rng.choice(files)}
        if k == "mv":
            return {"e": "mv", "d": d, "f": rng.choice(files), "g": "m%d.spold" % rng.randrange(3)}
        if k == "swap" and "alt" in dirs:
            return {"e": "swap", "d": d, "with": "alt"}
        if k == "pswap" and "p/s" in dirs:
            return {"e": "pswap", "a": "p", "b": "q"}
        if k == "relink" and links:
            return {"e": "relink", "l": "ln", "to": rng.choice([x for x in dirs])}
        return {"e": "touch", "d": d, "f": rng.choice(files)}

    def base(self, rng):
        dirs = K.sources(rng, rng.randint(1, 2))
        plan = {"seed": rng.randrange(2 ** 40), "clock": K.clock(rng), "dirs": dirs, "steps": [], "gap": rng.choice([1000, 10 ** 7, 3 * NSEC, DAY])}
        K.ages(rng, plan)
        x = rng.random()
        if x < 0.35:
            dirs["alt"] = {f: 7 for f in list(dirs["s0"])}
        if 0.25 < x < 0.45:
            dirs["p/s"] = dict(dirs["s0"]); dirs["q/s"] = {f: 8 for f in dirs["s0"]}
        links = {}
        if x > 0.75:
            links = plan["links"] = {"ln": "s0"}
            dirs.setdefault("s1", {f: 9 for f in dirs["s0"]})
        srcs = [d for d in dirs if not d.startswith(("alt", "q"))] + list(links) * 2
        vs = [10]
        n = rng.randint(2, 6)
        last = None
        for k in range(n):
            src = last if last and rng.random() < 0.75 else rng.choice(srcs)
            last = src
            ph = {"t": "phase", "nodes": [node(rng, [cmd(rng, src, rng.random() < 0.93) for _ in range(rng.choice([1, 1, 2]))])], "order": rng.randrange(3),
                  "sched": K.schedule(rng)}
            if rng.random() < 0.4:
                ed = sorted([[rng.randrange(1, 70), self.edit(rng, dirs, links, vs, plan)] for _ in range(rng.choice([1, 1, 2]))], key=lambda e: e[0])
                if sum(e["e"] in ("swap", "pswap", "relink") for _, e in ed) > 1:   # there and back within one run: outside the property
                    del ed[1:]
                ph["edits"] = ed
            plan["steps"].append(ph)
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                if rng.random() < 0.6:
                    plan["steps"].append({"t": "wait", "ns": rng.choice([10, 10 ** 6, 5 * 10 ** 8, 3 * NSEC, DAY])})
                plan["steps"].append({"t": "edit", "edit": self.edit(rng, dirs, links, vs, plan), "ns": rng.choice([10, 10 ** 6, NSEC])})
            if rng.random() < 0.5:
                plan["steps"].append({"t": "wait", "ns": rng.choice([10, 10 ** 6, 5 * 10 ** 8, 3 * NSEC])})
        for src in sorted(set(srcs)):
            plan["steps"].append({"t": "phase", "order": rng.randrange(3), "nodes": [node(rng, [
                {"do": "extract", "src": src, "use_cache": True, "use_mp": False, "scribble": rng.random() < 0.5},
                {"do": "extract", "src": src, "use_cache": False, "use_mp": False},
                {"do": "extract", "src": src, "use_cache": True, "use_mp": False, "scribble": rng.random() < 0.5},
                {"do": "extract", "src": src, "use_cache": True, "use_mp": False}])]})
        return plan

    def explore(self, rng, tier):
        plan = K.respell(self.base(rng))
        res = yield plan
        # move the in-phase edits to other places of the same history
        idx = [i for i, st in enumerate(plan["steps"]) if st["t"] == "phase" and st.get("edits")]
        for _ in range(2 if idx else 0):
            p = copy.deepcopy(plan)
            for i in idx:
                n = res["phases"][sum(1 for s in plan["steps"][:i] if s["t"] == "phase")].steps
                for e in p["steps"][i]["edits"]:
                    e[0] = rng.randrange(1, max(2, n))
                p["steps"][i]["edits"].sort(key=lambda e: e[0])
            yield p


class C02World(CacheWorld):
    def judge(self, i, st, ph, nd, k, c, r, win):
        CacheWorld.judge(self, i, st, ph, nd, k, c, r, win)


class C02(K.BaseCheck):
    world = C02World
    KINDS = ["die", "die", "die_after", "die_after", "die_after", "fail", "fail", "full", "int", "int_after", "limit", "power", "power"]

    def base(self, rng):
        dirs = K.sources(rng, 1, 1, 4)
        plan = {"seed": rng.randrange(2 ** 40), "clock": K.clock(rng), "dirs": dirs, "gap": rng.choice([10 ** 7, 3 * NSEC, DAY]), "steps": []}
        S = plan["steps"]
        warm = rng.random()
        if warm < 0.5:          # a cache exists
            S.append({"t": "phase", "nodes": [node(rng, [cmd(rng, "s0")])]})
            S.append({"t": "wait", "ns": rng.choice([10 ** 6, 3 * NSEC])})
            if warm < 0.4:      # ... and is out of date
                S.append({"t": "edit", "edit": {"e": rng.choice(["write", "replace"]), "d": "s0", "f": rng.choice(list(dirs["s0"])), "v": 5}})
                S.append({"t": "wait", "ns": rng.choice([10 ** 6, 3 * NSEC])})
        S.append({"t": "phase", "tag": "target", "nodes": [node(rng, [cmd(rng, "s0")])], "order": rng.randrange(2), "sched": K.schedule(rng)})
        after = rng.random()
        if after < 0.25:
            S.append({"t": "power", "salt": rng.randrange(1000)})
        if rng.random() < 0.7:
            S.append({"t": "wait", "ns": rng.choice([10 ** 6, 3 * NSEC, 30 * NSEC])})
        S.append({"t": "phase", "nodes": [node(rng, [cmd(rng, "s0"), {"do": "extract", "src": "s0", "use_cache": True, "use_mp": False},
                                                     {"do": "extract", "src": "s0", "use_cache": False, "use_mp": False}])]})
        S.append({"t": "wait", "ns": 4 * NSEC})
        S.append({"t": "phase", "nodes": [node(rng, [{"do": "extract", "src": "s0", "use_cache": True, "use_mp": False}])]})
        return plan

    def explore(self, rng, tier):
        plan = K.respell(self.base(rng))
        res = yield plan
        t = next(i for i, st in enumerate(plan["steps"]) if st.get("tag") == "target")
        ph = res["phases"][sum(1 for s in plan["steps"][:t] if s["t"] == "phase")]
        ops = [(n, e) for n, e in enumerate(e for e in ph.events if e[1] == "n0")]
        # operation ordinals count every request of the node, pool requests and marks included
        cache = [(n, e) for n, e in ops if "/cache" in e[3] or "/cache" in e[4]]
        wr = [(n, e) for n, e in cache if e[2] in ("write", "rename", "fsync", "utime", "truncate", "unlink") or e[2] == "open" and e[5] & 3]
        first = next((n for n, e in wr), None)
        for _ in range(9 if tier == "quick" else 30):
            p = copy.deepcopy(plan)
            faults = {}
            for _ in range(rng.choice([1, 1, 1, 2])):
                x = rng.random()
                if x < 0.12:                        # CTRL-C at an arbitrary line
                    p["steps"][t]["nodes"][0]["cmds"][0]["int_line"] = rng.randrange(rng.choice([30, 120, 400]))
                    continue
                pool = wr if wr and x < 0.6 else cache if cache and x < 0.75 else ops
                if wr and 0.6 <= x < 0.68:          # operations right after the cache write started
                    pool = [(n, e) for n, e in ops if first <= n <= first + 12]
                n, e = rng.choice(pool)
                f = K.fault_for(rng, e, self.KINDS)
                if f:
                    faults[str(n)] = f
            p["steps"][t]["faults"] = {"n0": faults}
            if rng.random() < 0.2:                  # the next run is disturbed as well
                q = copy.deepcopy(p["steps"][t]); q["tag"] = "again"
                q["faults"] = {"n0": {str(rng.choice(ops)[0]): rng.choice([["die"], ["die_after", rng.randrange(50)], ["full", "ENOSPC"]])}}
                p["steps"].insert(t + 1, q)
            yield p


class C08World(CacheWorld):
    def judge(self, i, st, ph, nd, k, c, r, win):
        what = "phase %d %s command %d (extract %s, use_mp=%s, cpus=%s)" % (i, nd["id"], k, c["src"], c.get("use_mp"), nd.get("cpus"))
        lo, hi = win
        # faults that hit this command: on reading a source file
        hits = [e for e in ph.events if lo < e[0] < (hi or 10 ** 9) and e[7] == "fail" and (e[3] + "/").startswith(c["src"] + "/") and e[2] in ("open", "read", "listdir", "stat")]
        src_hits = [e for e in hits if e[2] in ("open", "read", "listdir")]
        if r["st"] == "ok":
            if src_hits:
                what += " with " + " ".join(map(str, src_hits[0][2:4] + src_hits[0][8:10]))
            self.judge_data(c["src"], r["val"]["data"], lo, hi, what)
            self.judge_paths(c, r["val"]["data"], what)
            if len(self.snapshots(lo, hi)) == 1:
                self.lists.setdefault((os.path.normpath(gen.spelled("", c)), len(self.timeline), st.get("order")), []).append((what, [d["id"] for d in r["val"]["data"]], canon_list(r["val"]["data"])))
            return
        fired = [f for f in ph.fired]
        if fired or self.disturbed(c, win) or not expect(self.model(c["src"]), self.small):
            return
        self.bad("extraction failed", "%s ended with %s" % (what, {x: y for x, y in r.items() if x != "val"}))

    def compare(self, *a):
        pass

    def prepare(self):
        self.lists = {}

    def finish(self):
        for key, xs in self.lists.items():
            for what, ids, full in xs[1:]:
                if full != xs[0][2]:
                    self.bad("order or content differs", "%s gave %s, %s gave %s" % (xs[0][0], xs[0][1][:6], what, ids[:6]))
                    return


class C08(K.BaseCheck):
    world = C08World

    def base(self, rng):
        dirs = K.sources(rng, 1, 1, 9)
        if rng.random() < 0.25:
            dirs["s0"].update({"g%02d.spold" % i: rng.randint(1, 3) for i in range(rng.randint(5, 25))})
        if rng.random() < 0.06:
            dirs["s0"] = {"readme.txt": 1}          # nothing to extract
        plan = {"seed": rng.randrange(2 ** 40), "clock": K.clock(rng), "dirs": dirs, "gap": 3 * NSEC, "steps": [], "small": rng.random() < 0.7}
        if rng.random() < 0.3:
            plan["twins"] = [["s0", "twin%d.spold" % n, "origin%d.spold" % n, rng.randint(1, 3), rng.choice(["copy", "hard", "sym"])] for n in range(rng.choice([1, 1, 3]))]
        order = rng.randrange(3)
        S = plan["steps"]
        for k in range(rng.randint(1, 3)):
            S.append({"t": "phase", "order": order, "sched": K.schedule(rng), "nodes": [{"id": "n0", "cpus": rng.randint(1, 4), "cwd": "cwd", "cmds": [
                {"do": "extract", "src": "s0", "use_cache": False, "use_mp": True} for _ in range(rng.choice([1, 1, 2]))]}]})
        S.append({"t": "phase", "order": order, "nodes": [{"id": "n0", "cpus": 2, "cwd": "cwd", "cmds": [
            {"do": "extract", "src": "s0", "use_cache": False, "use_mp": False}]}]})
        return plan

    def explore(self, rng, tier):
        plan = K.respell(self.base(rng))
        res = yield plan
        # the same directory with faults; afterwards a cached extraction must be whole
        for _ in range(6 if tier == "quick" else 16):
            p = copy.deepcopy(plan)
            mp = rng.random() < 0.7
            st = {"t": "phase", "order": rng.randrange(3), "sched": K.schedule(rng), "nodes": [{"id": "n0", "cpus": rng.randint(1, 4), "cwd": "cwd", "cmds": [
                {"do": "extract", "src": "s0", "use_cache": True, "use_mp": mp}]}]}
            p["steps"] = [st]
            prof = yield p
            evs = prof["phases"][0].events
            byn = {}
            for e in evs:
                byn.setdefault(e[1], []).append(e)
            cand = [(n, k, e) for n, es in byn.items() for k, e in enumerate(es) if (e[3] + "/").startswith("s0/") and e[2] in ("open", "read", "listdir", "stat")]
            p2 = copy.deepcopy(p)
            kind = rng.choice(["fail", "fail", "fail", "limit", "edit", "edit"])
            s2 = p2["steps"][0]
            if kind == "edit":
                n = prof["phases"][0].steps
                fs = list(plan["dirs"]["s0"])
                cut = {"e": "cut", "d": "s0", "f": rng.choice(fs)}
                if rng.random() < 0.6:
                    cut.update(bound=rng.randrange(3), more=rng.choice([0, 0, 5, 40]))
                else:
                    cut["pc"] = rng.choice([0, 30, 60, 90, 99])
                s2["edits"] = [[rng.randrange(1, max(2, n)), rng.choice([
                    cut, cut,
                    {"e": "rm", "d": "s0", "f": rng.choice(fs)}, {"e": "mv", "d": "s0", "f": rng.choice(fs), "g": "zz.spold"},
                    {"e": "replace", "d": "s0", "f": rng.choice(fs), "v": 4}])]]
            elif cand:
                faults = {}
                for _ in range(rng.choice([1, 1, 2, 3]) if kind == "fail" else rng.randint(1, 6)):
                    n, k, e = rng.choice(cand)
                    f = K.fault_for(rng, e, [kind])
                    if f:
                        faults.setdefault(n, {})[str(k)] = f
                s2["faults"] = faults
            p2["steps"].append({"t": "wait", "ns": rng.choice([10 ** 6, 4 * NSEC])})
            fs = [f for f in plan["dirs"]["s0"] if SPOLD(f)]
            if kind == "edit" and s2["edits"][0][1]["e"] == "cut" and rng.random() < 0.5:
                p2["steps"].append({"t": "edit", "edit": {"e": "write", "d": "s0", "f": s2["edits"][0][1]["f"], "v": 6}})
            for use in (True, False):
                p2["steps"].append({"t": "phase", "order": 1, "nodes": [{"id": "n0", "cpus": 2, "cwd": "cwd", "cmds": [
                    {"do": "extract", "src": "s0", "use_cache": use, "use_mp": rng.random() < .4}]}]})
            yield p2
