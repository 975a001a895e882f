"""C11: the HTML report against what the run is known to have done."""
import copy
import json
import os
import re

import common as K
from c_runs import RunWorld, follow_name, run_cmd, ENVS
from sim import NSEC
from world import DAY

WS = re.compile(r"\s+")


def norm(s):
    return WS.sub(" ", s).strip()


def rendered(s):
    """Text a browser shows for an HTML fragment."""
    import lxml.html
    try:
        return norm(lxml.html.fragment_fromstring(s, create_parent="div").text_content())
    except Exception:
        return norm(s)


def page(blob):
    import lxml.html
    try:
        return lxml.html.document_fromstring(blob, parser=lxml.html.HTMLParser(encoding="utf-8"))
    except lxml.etree.LxmlError as e:
        raise ValueError("no page: %s" % e)


class C11World(RunWorld):
    quiet = "/no such thing/"

    def before_phase(self, i, st):
        RunWorld.before_phase(self, i, st)
        if not hasattr(self, "reports"):
            self.reports = {}            # run directory -> (run, report bytes)

    def step(self, i, st):
        if st["t"] == "phase":            # `report` commands name the run they regenerate by its number
            for nd in st["nodes"]:
                for c in nd["cmds"]:
                    if c["do"] == "report":
                        known = list(getattr(self, "reports", {}))
                        c["log"] = known[c["n"] % len(known)] + "/report.log.json" if known else "none/report.log.json"
        RunWorld.step(self, i, st)

    def after_phase(self, i, st, ph):
        if not self.progress(i, ph):
            return
        for r in self.runs_of(i, st, ph):
            if any(f.get("raise") for f in r.functions()):
                continue
            if r.st != "ok":
                ended = sum(m.startswith("fn.end") for m in r.marks) == len(r.functions())
                if not r.fired and not (r.real and not ended and self.alone(r)["st"] != "ok"):
                    self.bad("run failed", "%s ended with %s without any fault" % (r, r.outcome()))
                continue
            if self.judge(r):
                self.reports[r.dir] = (r, self.read(r.dir + "/report.html"))
        for nd in st["nodes"]:
            for k, (c, r) in enumerate(zip(nd["cmds"], ph.results[nd["id"]])):
                if c["do"] == "report" and not c["log"].startswith("none") and r["st"] != "ok":
                    self.bad("report fails", "phase %d %s: generating the report of %s again ended with %s" % (i, nd["id"], c["log"], {a: b for a, b in r.items() if a != "val"}))
                    return
        for d, (r, blob) in self.reports.items():
            if self.read(d + "/report.html") != blob:
                self.bad("report changed", "phase %d: the report of %s is not the same after generating it again" % (i, r))
                return
            if not self.assets(r, blob):
                return

    def assets(self, r, blob):
        refs = re.findall(rb"""(?:href|src)\s*=\s*["'](assets/[^"']+)["']""", blob)
        if not refs:
            self.bad("assets missing", "%s: the report refers to no assets" % r)
            return False
        src = os.path.join(os.environ.get("DST_REPO", "/repo"), "ocelot/data/assets")
        for x in refs:
            x = x.decode()
            got = self.read(r.dir + "/" + x)
            try:
                want = open(os.path.join(os.path.dirname(src), x), "rb").read()
            except OSError:
                want = None
            if got is None or got != want:
                self.bad("assets missing", "%s: %s, which the report refers to, is %s" % (r, x, "missing" if got is None else "not the same as in the package"))
                return False
        return True

    def judge(self, r):
        blob = self.read(r.dir + "/report.html")
        if blob is None:
            self.bad("report missing", "%s completed without a report" % r)
            return False
        doc = page(blob)
        fs = {f["u"]: f for f in r.functions()}
        want = []
        first = None
        for m in r.marks:
            w = m.split(" ")
            if w[0] == "fn.begin":
                first = int(w[2]) if first is None else first
                want.append({"f": fs[w[1]], "rows": []})
            elif w[0] == "log.end":
                row = fs[w[1]]["rows"][int(w[2])]
                want[-1]["rows"].append(json.loads(row) if r.real else row)
            elif w[0] == "fn.end":
                want[-1]["count"] = int(w[2])
        text = norm(doc.text_content())
        rid = os.path.basename(r.dir)
        if rid not in text:
            return self.no("wrong report", "%s: the report does not show the run's identity" % r)
        if first is not None and not re.search(r"Input datasets:\s*%d\b" % first, text):
            return self.no("wrong report", "%s: the report does not show the %d input datasets" % (r, first))
        charts = [json.loads(x) for s in doc.iter("script") for x in re.findall(r"\[\s*-?\d[-+\d.,\seE]*\]", s.text or "")]
        counts = [first] + [w.get("count") for w in want]
        if first is not None and counts not in charts:
            return self.no("wrong report", "%s: no chart of the dataset counts %s" % (r, counts[:12]))
        if first is not None and not any(len(x) == len(want) + 2 and not x[0] for x in charts):
            return self.no("wrong report", "%s: no chart of the times of %d functions" % (r, len(want)))
        heads = [h for h in doc.iter("h2") if (h.get("id") or "").startswith("function")]
        if len(heads) != len(want):
            return self.no("wrong report", "%s: %d functions in the report, %d ran" % (r, len(heads), len(want)))
        for n, (h, w) in enumerate(zip(heads, want)):
            f = w["f"]
            if norm(f["n"]) not in norm(h.text_content()):
                return self.no("wrong report", "%s: function %d is shown as %r, its name is %r" % (r, n, norm(h.text_content()), f["n"]))
            box = h.getnext()
            if box is None:
                return self.no("wrong report", "%s: nothing shown for function %d" % (r, n))
            t = norm(box.text_content())
            c = re.search(r"Number of datasets after application: (\S+)", t)
            if not c or c.group(1) != str(w["count"]):
                return self.no("wrong report", "%s: function %d: dataset count %s shown, %d right" % (r, n, c and c.group(1), w["count"]))
            pos = 0
            doc = f.get("doc") or ""
            if r.real:                      # up to the first markup
                doc = re.split(r"[`:*|_\\<\[]|\.\.", doc)[0].rsplit(" ", 1)[0]
            for word in re.findall(r"\w{2,}", doc):
                pos = t.find(word, pos)
                if pos < 0:
                    return self.no("wrong report", "%s: function %d: the report lacks %r of its description" % (r, n, word))
            if f.get("table"):
                if norm(f["table"]["title"]) not in t:
                    return self.no("wrong report", "%s: function %d: table title %r is not shown" % (r, n, f["table"]["title"]))
                cols = [norm(x.text_content()) for x in box.iter("th")]
                if cols != [norm(str(x)) for x in f["table"]["columns"]]:
                    return self.no("wrong report", "%s: function %d: columns %s, should be %s" % (r, n, cols, f["table"]["columns"]))
                got = [[norm(x.text_content()) for x in tr.iter("td")] for tr in box.iter("tr") if tr.find("th") is None]
                got = [x for x in got if x]
                exp = [[norm(str(x)) for x in row] for row in json.loads(json.dumps(w["rows"]))]
            else:
                got = [norm(x.text_content()) for x in box.iter("li")]
                got = [x for x in got if not x.startswith(("Total time:", "Number of datasets after"))]
                inside = [rendered(l) for l in ("one", "two") if "\n* " in (f.get("doc") or "")]
                for x in inside:
                    if x in got:
                        got.remove(x)
                exp = [rendered(x) if rendered(x) in got else norm(x) for x in w["rows"]]
                if r.real:                      # items of lists in the description
                    words = re.findall(r"\w+", f.get("doc") or "")
                    for x in [x for x in got if x not in exp]:
                        if set(re.findall(r"\w+", x)) <= set(words):
                            got.remove(x)
            key = lambda x: json.dumps(x)
            if sorted(got, key=key) != sorted(exp, key=key):
                miss = [x for x in exp if x not in got][:2]
                extra = [x for x in got if x not in exp][:2]
                return self.no("wrong report", "%s: function %d (%s) shows %d rows, %d logged; missing %.150s, unexpected %.150s" % (r, n, f["n"], len(got), len(exp), miss, extra))
        return self.assets(r, blob)

    def no(self, cls, msg):
        self.bad(cls, msg)
        return False


class C11(K.BaseCheck):
    world = C11World
    share, cap = 0.12, 2

    def clock(self, rng):
        c = K.clock(rng)
        x = rng.random()
        if x < 0.3:                 # adjustments of the clock in the middle of runs
            for _ in range(rng.randint(1, 6)):
                c["jumps"][str(rng.randrange(10, 1500))] = rng.choice([-1, -1, 1]) * rng.choice([10 ** 6, NSEC, 3600 * NSEC, 40 * DAY])
        elif x < 0.5:
            c["tick"] = [0, 0]
        return c

    def base(self, rng):
        dirs = K.sources(rng, 1, 1, 4)
        plan = {"seed": rng.randrange(2 ** 40), "clock": self.clock(rng), "dirs": dirs, "gap": 3 * NSEC, "env": rng.choice(ENVS), "steps": []}
        u = 0
        for ph in range(rng.choice([1, 2])):
            nodes = []
            for n in range(rng.choice([1, 1, 2])):
                cmds = []
                for k in range(rng.randint(1, 3)):
                    cfg = K.config(rng, 1, rng.choice([3, 6, 14]), start=20 * u); u += 1
                    for f in K.cfg_functions(cfg):
                        if rng.random() < 0.25:
                            f["n"] = rng.choice(["<lambda>", "a<b & c>d", "x</h2>y", "one {{ two }}", "n&amp;m"])
                        if f.get("table") and rng.random() < 0.4:
                            f["table"]["title"] = rng.choice(["A < B", "Ünï & co", "T</table>"])
                            for row in f["rows"]:
                                row[0] = "%s %s" % (rng.choice(["a<b", "<td>", "x</td><td>y", "&lt;", "if a < b and c > d", "{{ x }}", "<!-- c -->"]), row[0])
                        if f.get("table") and rng.random() < 0.15 and f["rows"]:
                            f["rows"].append(list(f["rows"][0]))           # the same row twice
                        elif not f.get("table") and rng.random() < 0.15 and f["rows"]:
                            f["rows"].append(f["rows"][0])
                        if rng.random() < 0.1 and f.get("form") != "perds":
                            m = 150
                            f["rows"] = [["r%s.%d.%d" % (f["u"], r, c) for c in range(len(f["table"]["columns"]))] if f.get("table") else "r%s.%d" % (f["u"], r) for r in range(m)]
                    if rng.random() < 0.15:
                        f = rng.choice(K.cfg_functions(cfg)); f["raise"] = rng.choice(["ValueError", "KeyboardInterrupt"]); f["form"] = "plain"
                    c = run_cmd(rng, "s0", cfg, follow_name(rng, dirs, "s0"))
                    if rng.random() < 0.3:
                        c["show"] = True
                    cmds.append(c)
                nodes.append({"id": "n%d" % n, "cpus": 1, "cwd": "cwd", "cmds": cmds})
            plan["steps"].append({"t": "phase", "tag": "target", "nodes": nodes, "sched": K.schedule(rng)})
        plan["steps"].append({"t": "wait", "ns": rng.choice([NSEC, 100 * DAY])})
        plan["steps"].append({"t": "phase", "nodes": [{"id": "n0", "cpus": 1, "cwd": rng.choice(["cwd", "home"]), "env": {}, "cmds": [{"do": "report", "n": rng.randrange(9)} for _ in range(rng.randint(1, 3))]}]})
        return plan

    def explore(self, rng, tier):
        plan = self.draw(rng)
        res = yield plan
        n = res["steps"]
        for _ in range(3 if tier == "quick" else 8):
            p = copy.deepcopy(plan)
            p["clock"] = self.clock(rng)
            p["clock"]["jumps"] = {str(rng.randrange(10, max(11, n))): v for v in p["clock"]["jumps"].values()}
            for st in p["steps"]:
                if st.get("tag") == "target":
                    st["sched"] = K.schedule(rng)
            yield p
