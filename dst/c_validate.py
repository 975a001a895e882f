"""C14: the verdict of the validation commands is about the files as they are."""
import copy
import hashlib
import os
import random
import re
import shutil

import common as K
from gen import HEAD, TAIL
from sim import NSEC
from world import DAY, SPOLD, World

UNIT = '<unitName xml:lang="en">kg</unitName>'
DS = ('<activityDataset><activityDescription><activity id="%s" activityNameId="b7cf03a4-aced-43ee-98f4-1cd7c53c82c0" '
      'inheritanceDepth="0" type="1" specialActivityType="0"><activityName xml:lang="en">%s</activityName></activity>'
      '<classification classificationId="6fe7bc2b-4be4-48f7-92b0-f27dea9053ce"><classificationSystem xml:lang="en">ISIC</classificationSystem>'
      '<classificationValue xml:lang="en">420</classificationValue></classification>'
      '<geography geographyId="0723d252-7e2a-11de-9820-0019e336be3a"><shortname xml:lang="en">RER</shortname></geography>'
      '<technology technologyLevel="3"/><timePeriod startDate="2005-01-01" endDate="2005-12-31" isDataValidForEntirePeriod="true"/>'
      '<macroEconomicScenario macroEconomicScenarioId="d9f57f0a-a01f-42eb-a57b-8f18d6635801"><name xml:lang="en">B</name></macroEconomicScenario>'
      '</activityDescription>%s<flowData><intermediateExchange id="a441bcdd-632c-4c18-b5ef-0f10549a38b5" '
      'unitId="487df68b-4994-4027-8fdc-a4dc298257b7" amount="1" intermediateExchangeId="d51e5a32-c20a-4da6-8d58-31f344b50c00" '
      'productionVolumeAmount="3"><name xml:lang="en">p</name>' + UNIT + '<outputGroup>0</outputGroup></intermediateExchange></flowData>'
      '<modellingAndValidation/><administrativeInformation><dataEntryBy personId="a441bcdd-632c-4c18-b5ef-0f10549a38b5" personName="Wilma" '
      'personEmail="a@b.c"/><dataGeneratorAndPublication personId="a441bcdd-632c-4c18-b5ef-0f10549a38b5" personEmail="a@b.c" '
      'isCopyrightProtected="true" accessRestrictedTo="1" personName="Fred"/><fileAttributes majorRelease="3" minorRelease="0" '
      'majorRevision="1" minorRevision="0"/></administrativeInformation></activityDataset>\n')
FLOW = '</flowData>'
# kind: (meets the internal format, meets the ecospold2 schema, change of the text)
KINDS = {
    "ok": (1, 1, None),
    "param": (1, 1, (FLOW, '<parameter parameterId="a441bcdd-632c-4c18-b5ef-0f10549a38b5" amount="2" variableName="x"><name xml:lang="en">q</name></parameter>' + FLOW)),
    "no isic": (0, 1, (re.compile(r'<classification classificationId="6fe.*?</classification>'), '')),
    "stock": (0, 1, ('<outputGroup>0</outputGroup>', '<outputGroup>5</outputGroup>')),
    "no name": (0, 1, ('<name xml:lang="en">p</name>', '<name xml:lang="en"></name>')),
    "fuel": (0, 1, (FLOW, '<intermediateExchange id="a441bcdd-632c-4c18-b5ef-0f10549a38b6" unitId="487df68b-4994-4027-8fdc-a4dc298257b7" amount="1" '
                          'intermediateExchangeId="d51e5a32-c20a-4da6-8d58-31f344b50c00"><name xml:lang="en">c</name>' + UNIT + '<inputGroup>2</inputGroup></intermediateExchange>' + FLOW)),
    "no classification id": (1, 0, (' classificationId="6fe7bc2b-4be4-48f7-92b0-f27dea9053ce"', '')),
    "no unit id": (1, 0, (' unitId="487df68b-4994-4027-8fdc-a4dc298257b7"', '')),
    "strange element": (1, 0, ('<flowData>', '<bogus/><flowData>')),
    "geography": (1, 0, (' geographyId=', ' geographyIx=')),
    "no modelling": (1, 0, ('<modellingAndValidation/>', '')),
    "no person": (0, 0, (' personName="Wilma"', '')),
    "no start": (0, 0, (' startDate="2005-01-01"', '')),
    "parameter without id": (0, 0, (FLOW, '<parameter amount="2" variableName="x"><name xml:lang="en">q</name></parameter>' + FLOW)),
    "half distribution": (0, 0, (UNIT, UNIT + '<uncertainty><lognormal meanValue="0.48" mu="-0.7277" variance="0.1"/></uncertainty>')),
}
SAME = ["ok", "stock", "geography"]                  # kinds whose text has the same length
BAD = [k for k in KINDS if k not in ("ok", "param")]


def uid(fname, d):
    h = hashlib.md5(("%s %d" % (fname, d)).encode()).hexdigest()
    return "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])


def title(fname, d, v):
    return "activity %s %d v%d é" % (fname, d, v)


def kinds(fname, v):
    """The kinds of dataset in version v of a file; version 0 is always valid."""
    if v >= 1000:                                    # contents of one size
        return [SAME[v % len(SAME)]] * random.Random("same %s" % fname).choice([1, 1, 2])
    r = random.Random("kinds %s %d" % (fname, v))
    n = r.choice([1, 1, 1, 2, 3])
    if v % 3 == 0:
        return [r.choice(["ok", "ok", "param"]) for _ in range(n)]
    if v >= 100:                                     # all of one kind
        return [BAD[v % len(BAD)]] * n
    return [r.choice(["ok", "ok"] + BAD) for _ in range(n)]


class C14World(World):
    quiet = "/assets"

    def blob(self, origin, v):
        if not SPOLD(origin):
            return b"text %d\n" % v
        out = [HEAD]
        for d, k in enumerate(kinds(origin, v)):
            t = DS % (uid(origin, d), title(origin, d, v), "")
            ch = KINDS[k][2]
            if ch:
                t = ch[0].sub(ch[1], t, 1) if hasattr(ch[0], "sub") else t.replace(ch[0], ch[1], 1)
            out.append(t)
        return "".join(out + [TAIL]).encode("utf-8")

    def prepare(self):
        import ocelot
        src = os.path.join(os.path.dirname(os.path.abspath(ocelot.__file__)), "data")
        os.makedirs(self.sim.p("schema"), exist_ok=True)
        for f in sorted(os.listdir(src)):
            if f.endswith(".xsd"):
                with open(os.path.join(src, f), "rb") as fh:
                    self.sim.u_write("schema/" + f, fh.read())
        for d in ("cwd0", "cwd1", "cwd2"):
            self.sim.u_mkdir(d)

    # ---- judging ---------------------------------------------------------------------------------------------------
    def after_phase(self, i, st, ph):
        if ph.hung or ph.deadlock:
            self.bad("no progress", "phase %d: hung=%s deadlock=%s" % (i, ph.hung, ph.deadlock))
            return
        for nd in st["nodes"]:
            wins = self.windows(ph, nd["id"])
            last = None
            for k, (c, r) in enumerate(zip(nd["cmds"], ph.results[nd["id"]])):
                if c["do"] in ("validate", "xsd"):
                    self.judge(i, st, ph, nd, k, c, r, wins[k])
                    if c["do"] == "validate":
                        last = (k, c, r, wins[k])
            if last:
                self.judge_log(i, ph, nd, *last)

    def judge(self, i, st, ph, nd, k, c, r, win):
        what = "phase %d %s command %d (%s %s%s)" % (i, nd["id"], k, c["do"], c["src"], ", command line" if c.get("cli") else "")
        lo, hi = win
        evs = [e for e in ph.events if e[1].split(".")[0] == nd["id"] and lo < e[0] < (hi or 10 ** 12)]
        for e in evs:
            if "/Ocelot/cache/" in e[3] and e[2] in ("open", "rename", "unlink"):
                self.bad("uses the cache", "%s: %s %s" % (what, e[2], e[3]))
                return
        snaps = self.snapshots(lo, hi)
        states = {}
        loose = set()
        for s in snaps:
            for f in s[1].get(c["src"], {}):
                if SPOLD(f):
                    states.setdefault(f, [])
        for f in states:
            states[f] = [s[1].get(c["src"], {}).get(f, "absent") for s in snaps]
        for s in snaps[1:]:
            loose |= {f for d, f in s[2] if d == c["src"]}
        broken = [f for f in states if None in states[f]]
        fired = [f for f in ph.fired if f[0].split(".")[0] == nd["id"]]
        if r["st"] != "ok":
            if fired or broken or loose or not states or len(snaps) > 1:
                return
            self.bad("validation failed", "%s ended with %s although every file can be read" % (what, {x: y for x, y in r.items() if x != "val"}))
            return
        out = r["val"]["out"]
        after = " after " + " ".join(map(str, fired[0])) if fired else ""
        if c["do"] == "xsd":
            clean = "All files valid" in out
            said = set(re.findall(r"'((?:[^'\\]|\\.)*)'", out.split("did not validate", 1)[1])) if "did not validate" in out else set()
            if clean == bool(said):
                self.bad("no verdict", "%s%s printed %r" % (what, after, out[-200:]))
                return
            for f, xs in sorted(states.items()):
                if f in loose:
                    continue
                v = {"absent" if x == "absent" else "bad" if x is None or not all(KINDS[q][1] for q in kinds(*x)) else "good" for x in xs}
                if v == {"bad"} and f not in said:
                    self.bad("invalid file not reported", "%s%s does not report %s (%s)" % (what, after, f, [x and kinds(*x) for x in xs]))
                    return
                if "bad" not in v and f in said:
                    self.bad("valid file reported", "%s%s reports %s (%s)" % (what, after, f, [x and kinds(*x) for x in xs]))
                    return
            if said - set(states):
                self.bad("valid file reported", "%s%s reports %s, which are not there" % (what, after, sorted(said - set(states))))
            return
        stable = len(snaps) == 1
        if stable and broken:
            self.bad("invalid file not reported", "%s%s ended normally although %s is cut short" % (what, after, broken[0]))
            return
        want = {}
        for f, xs in states.items():
            if f in loose:
                continue
            for x in xs:
                for d, q in enumerate(kinds(*x) if isinstance(x, tuple) else []):
                    want.setdefault((f, d), set()).add(KINDS[q][0])
        all_bad = any(v == {0} and len(states[f]) == len([x for x in states[f] if isinstance(x, tuple)]) and
                      all(len(kinds(*x)) > d for x in states[f]) for (f, d), v in want.items())
        any_bad = any(0 in v for v in want.values())
        clean = "No errors found" in out
        if clean and all_bad:
            self.bad("invalid file not reported", "%s%s finds no errors; invalid are %s" % (what, after, [k for k, v in want.items() if v == {0}][:4]))
        elif not clean and not any_bad and not loose:
            self.bad("valid file reported", "%s%s finds errors: %s" % (what, after, out[-150:]))

    def judge_log(self, i, ph, nd, k, c, r, win):
        if r["st"] != "ok" or "No errors found" in r["val"]["out"] or len(self.snapshots(*win)) > 1:
            return
        if any(nd["id"] != n["id"] and n.get("cwd") == nd.get("cwd") for n in self.plan["steps"][i]["nodes"]):
            return
        b = self.read(nd["cwd"] + "/ocelot-validation-errors.log")
        what = "phase %d %s command %d (validate %s)" % (i, nd["id"], k, c["src"])
        if b is None:
            self.bad("error log incomplete", "%s reported errors but there is no error log" % what)
            return
        text = b.decode("utf-8", "replace")
        got = set(re.findall(r"'name': '(activity [^']*)'", text))
        m = self.snapshots(*win)[0][1].get(c["src"], {})
        have = set()
        for f, x in m.items():
            if not SPOLD(f) or x is None:
                continue
            for d, q in enumerate(kinds(*x)):
                have.add(title(x[0], d, x[1]))
                if (title(x[0], d, x[1]) in got) == bool(KINDS[q][0]):
                    self.bad("error log incomplete" if not KINDS[q][0] else "valid file reported", "%s: dataset %d of %s (%s) is %s the error log" % (
                        what, d, f, q, "not in" if not KINDS[q][0] else "in"))
                    return
        if got - have:
            self.bad("old findings", "%s: the error log has %s, which is not in the directory" % (what, sorted(got - have)[:3]))


class C14(K.BaseCheck):
    world = C14World
    FAULTS = ["fail", "fail", "fail", "full", "limit", "limit", "int", "int_after"]

    def sources(self, rng):
        dirs = {}
        for d in range(rng.choice([1, 1, 2])):
            pool = ["f%d.spold" % i for i in range(9)] + ["UPPER.SPOLD", "name with space.spold", "Ünï.spold", ".hidden.spold"]
            fs = rng.sample(pool, rng.choice([1, 2, 3, 5, 9]))
            x = rng.random()
            if x < 0.25:
                vs = [0] * len(fs)
            elif x < 0.5:
                vs = [0] * len(fs); vs[rng.randrange(len(fs))] = rng.randrange(1, 90)
            elif x < 0.7:
                k = 100 + rng.randrange(len(BAD) * 3)
                vs = [rng.choice([0, k]) for _ in fs]
            else:
                vs = [rng.randrange(90) for _ in fs]
            dirs["s%d" % d] = dict(zip(fs, vs))
            if rng.random() < 0.2:
                dirs["s%d" % d]["readme.txt"] = 1
        return dirs

    def command(self, rng, dirs):
        src = rng.choice(sorted(dirs))
        if rng.random() < 0.5:
            return {"do": "validate", "src": src, "cli": rng.random() < 0.5}
        c = {"do": "xsd", "src": src, "cli": rng.random() < 0.5}
        if rng.random() < 0.75 or not c["cli"]:
            c["schema"] = "schema/EcoSpold02.xsd"
        return c

    def edit(self, rng, dirs, v):
        d = rng.choice(sorted(dirs)); f = rng.choice(sorted(dirs[d]) + ["n1.spold"])
        k = rng.choice(["write", "replace", "replace", "pwrite", "rm", "mv", "cut"])
        if k == "pwrite":
            return {"e": "write", "d": d, "f": f, "v": v, "mtime": 10 ** 18}
        if k == "mv":
            return {"e": "mv", "d": d, "f": f, "g": "m%d.spold" % rng.randrange(3)}
        if k == "cut":
            return {"e": "cut", "d": d, "f": f, "bound": rng.randrange(3), "more": rng.choice([0, 0, 5, 40, 100000])}
        return {"e": k, "d": d, "f": f, "v": v} if k != "rm" else {"e": "rm", "d": d, "f": f}

    def base(self, rng):
        dirs = self.sources(rng)
        plan = {"seed": rng.randrange(2 ** 40), "clock": K.clock(rng), "dirs": dirs, "gap": rng.choice([10 ** 7, 3 * NSEC]), "steps": []}
        S = plan["steps"]
        n = rng.randint(1, 3)
        for s in range(n):
            nodes = []
            for k in range(rng.choice([1, 1, 2])):
                cmds = [self.command(rng, dirs) for _ in range(rng.choice([1, 1, 2]))]
                if rng.random() < 0.25:              # the same file changed between two commands of one process
                    c = self.command(rng, dirs)
                    f = rng.choice(sorted(dirs[c["src"]]))
                    keep = rng.choice([None, 10 ** 18, 10 ** 18])
                    cmds = []
                    for v in rng.sample([1000, 1001, 1002, 1000 + rng.randrange(3), rng.randrange(90)], rng.choice([2, 3])):
                        cmds += [{"do": "user", "ns": rng.choice([10, 10 ** 6, 3 * NSEC]), "edit": {"e": rng.choice(["write", "replace"]), "d": c["src"], "f": f, "v": v, "mtime": keep}},
                                 dict(c)]
                if rng.random() < 0.3:
                    cmds.insert(rng.randrange(len(cmds) + 1), {"do": "extract", "src": rng.choice(sorted(dirs)), "use_cache": True, "use_mp": rng.random() < .3})
                nodes.append({"id": "n%d" % k, "cpus": rng.randint(1, 3), "cwd": "cwd%d" % k, "cmds": cmds})
            ph = {"t": "phase", "order": rng.randrange(5), "sched": K.schedule(rng), "nodes": nodes}
            if rng.random() < 0.25:
                ph["edits"] = [[rng.randrange(1, 90), self.edit(rng, dirs, rng.randrange(90))]]
            S.append(ph)
            if s < n - 1:
                if rng.random() < 0.6:
                    S.append({"t": "wait", "ns": rng.choice([10, 10 ** 6, 3 * NSEC])})
                for _ in range(rng.choice([0, 1, 1, 2])):
                    S.append({"t": "edit", "edit": self.edit(rng, dirs, rng.choice([0, rng.randrange(90), 100 + rng.randrange(20)])), "ns": rng.choice([10, 10 ** 6, NSEC])})
        return plan

    def explore(self, rng, tier):
        plan = K.respell(self.base(rng))
        res = yield plan
        idx = [i for i, st in enumerate(plan["steps"]) if st["t"] == "phase"]
        for _ in range(4 if tier == "quick" else 16):
            p = copy.deepcopy(plan)
            j = rng.randrange(len(idx))
            ph = res["phases"][j]
            by = {}
            for e in ph.events:
                by.setdefault(e[1], []).append(e)
            cand = [(n, k, e) for n, es in by.items() for k, e in enumerate(es) if e[2] not in ("mark", "cmd", "start")]
            if not cand:
                continue
            if rng.random() < 0.6:
                pick = [x for x in cand if x[2][3].startswith(("s0/", "s1/", "schema/")) or x[2][3].endswith(".log") or x[2][3] in ("s0", "s1")]
                cand = pick or cand
            faults = {}
            for _ in range(rng.choice([1, 1, 2])):
                n, k, e = rng.choice(cand)
                f = K.fault_for(rng, e, [x for x in self.FAULTS if not (x.startswith("int") and "." in n)])
                if f:
                    faults.setdefault(n, {})[str(k)] = f
            p["steps"][idx[j]]["faults"] = faults
            if rng.random() < 0.3:
                p["steps"][idx[j]]["edits"] = [[rng.randrange(1, max(2, ph.steps)), self.edit(rng, plan["dirs"], rng.randrange(90))]]
            p["steps"].append({"t": "phase", "order": 1, "nodes": [{"id": "n0", "cpus": 2, "cwd": "cwd0", "cmds": [self.command(rng, plan["dirs"])]}]})
            yield p
