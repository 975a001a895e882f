"""Interprets plans: a world of source directories with a model of their contents, phases of simulated processes, user
edits.  Checks subclass World and judge what they see."""
import hashlib
import json
import os
import pickle
import random
import re
import traceback

import gen
import rich
from sim import NSEC, Sim, h64

DAY = 86400 * NSEC
SPOLD = lambda f: f.lower().endswith(".spold")
RUNID = re.compile(r"^[0-9a-f]{32}$")


UNREADABLE = "output of unexpected form"


class Violation(Exception):
    pass


def canon_ds(ds):
    return json.dumps(ds, sort_keys=True, default=repr)


def canon_set(data):
    return sorted(canon_ds(d) for d in data)


def canon_list(data):
    return [canon_ds(d) for d in data]


class World:
    """plan: {"seed", "clock", "env", "dirs": {name: {file: version}}, "steps": [...]}"""
    quiet = "/assets"
    small = True

    def __init__(self, plan, base):
        self.plan = plan
        self.sim = Sim(base, plan["seed"], plan.get("clock"), quiet=plan.get("quiet", self.quiet), env=plan.get("env"))
        self.sim.tz, self.sim.locale = plan.get("tz", "UTC"), plan.get("locale")
        self.viol = []
        self.phases = []
        self.models = {}           # directory name -> {file: (origin, version) | None when half written}
        self.links = {}            # link name -> directory name
        self.timeline = []         # (step, {dir: {file: ...}}, unstable names)
        for d in ("home", "tmp", "cwd"):
            self.sim.u_mkdir(d)
        if "$ROOT/via" in str(plan):                 # the output location is a link
            self.sim.u_mkdir("real/out")
            self.sim.u_symlink(self.sim.p("real/out"), "via")
            self.sim.alias.append(("via", "real/out"))

    # ---- violations ------------------------------------------------------------------------------------------
    def bad(self, cls, msg):
        if len(self.viol) < 5:
            self.viol.append({"cls": cls, "msg": msg})

    # ---- source directories -------------------------------------------------------------------------------------
    def build(self):
        s = self.sim
        for d, spec in self.plan.get("dirs", {}).items():
            s.u_mkdir(d)
            m = self.models[d] = {}
            for f, v in spec.items():
                s.u_write(d + "/" + f, self.blob(f, v))
                m[f] = (f, v)
        for d, spec in self.plan.get("dbs", {}).items():      # generated databases for the real system models
            fs = rich.files(spec["seed"], spec.get("size", 1.0))
            s.u_mkdir(d)
            for f, b in fs.items():
                if f not in spec.get("drop", []):
                    s.u_write(d + "/" + f, b)
        for n, (d, name, origin, v, kind) in enumerate(self.plan.get("twins", [])):      # one file under two names
            store = "store/%d" % n
            s.u_mkdir("store"); s.u_write(store, self.blob(origin, v))
            for g in (name, "2nd " + name):
                rel = d + "/" + g
                if kind == "copy":
                    s.u_write(rel, self.blob(origin, v))
                elif kind == "hard":
                    os.link(s.p(store), s.p(rel)); s.touch_parent(s.p(rel))
                else:
                    s.u_symlink(s.p(store), rel)
                self.models[d][g] = (origin, v)
        if "spell" in str(self.plan["steps"]):
            s.u_mkdir(gen.ODD)
            for d in sorted(set(self.plan.get("dirs", {})) | set(self.plan.get("dbs", {}))):
                s.u_mkdir(os.path.dirname(gen.ODD + "/" + d)); s.u_symlink(s.p(d), gen.ODD + "/" + d)
                s.alias.append((gen.ODD + "/" + d, d))
        age = self.plan.get("age")
        if age:                                     # the directories are old
            for d, spec in self.plan.get("dirs", {}).items():
                for i, f in enumerate(sorted(spec)):
                    t = s.fsnow() - age - i * NSEC
                    s.u_utime(d + "/" + f, t, t)
                t = s.fsnow() - age
                s.u_utime(d, t, t)
        for l, d in self.plan.get("links", {}).items():
            s.u_symlink(os.path.join(s.root, d), l)
            self.links[l] = d
        s.advance(self.plan.get("gap", NSEC))
        self.note()

    def blob(self, origin, v):
        if not SPOLD(origin):
            return ("text %s %d\n" % (origin, v)).encode()
        return gen.content(origin, v, self.small)

    def note(self, unstable=(), moved=False):
        self.timeline.append((self.sim.step_no, {d: dict(m) for d, m in self.models.items()}, set(unstable), dict(self.links), moved))

    def model(self, name):
        return self.models[self.links.get(name, name)]

    def edit(self, e):
        """Perform one user edit; impossible ones (after shrinking) are skipped."""
        s, k = self.sim, e["e"]
        d = e.get("d")
        unstable = set()
        if d is not None and d not in self.models:
            return
        m = self.models.get(d)
        f = e.get("f")
        rel = "%s/%s" % (d, f)
        if k == "write":                             # in place
            s.u_write(rel, self.blob(f, e["v"]), mtime=e.get("mtime"))
            m[f] = (f, e["v"])
            unstable.add((d, f))
        elif k == "half":                            # a slow writer: the first half of the new contents
            b = self.blob(f, e["v"])
            s.u_write(rel, b[:max(1, len(b) * e.get("pc", 50) // 100)])
            m[f] = None
            unstable.add((d, f))
        elif k == "replace":                         # new file renamed over the old one, maybe with an old mtime
            s.u_write(d + "/.tmp~", self.blob(f, e["v"]), mtime=e.get("mtime"))
            s.u_rename(d + "/.tmp~", rel)
            m[f] = (f, e["v"])
        elif k == "rm":
            if f not in m or len([x for x in m if SPOLD(x)]) < 2 and not e.get("force"):
                return
            s.u_unlink(rel); del m[f]
        elif k == "mv":
            g = e["g"] if SPOLD(f) else e["g"] + ".txt"
            if f not in m or g in m:
                return
            s.u_rename(rel, d + "/" + g)
            m[g] = m.pop(f)
        elif k == "swap":                            # another directory takes this one's place
            o = e["with"]
            if o not in self.models:
                return
            s.u_rename(d, d + ".aside"); s.u_rename(o, d); s.u_rename(d + ".aside", o)
            self.models[d], self.models[o] = self.models[o], self.models[d]
        elif k == "pswap":                           # the same one level up
            a, b = e["a"], e["b"]
            s.u_rename(a, a + ".aside"); s.u_rename(b, a); s.u_rename(a + ".aside", b)
            mm = {}
            for x, v in self.models.items():
                y = b + x[len(a):] if x.startswith(a + "/") else a + x[len(b):] if x.startswith(b + "/") else x
                mm[y] = v
            self.models = mm
        elif k == "relink":
            l, o = e["l"], e["to"]
            if l not in self.links or o not in self.models:
                return
            s.u_symlink(os.path.join(s.root, o), l + ".new"); s.u_rename(l + ".new", l)
            self.links[l] = o
        elif k == "touch":
            if f in m:
                s.touch(s.p(rel))
        elif k == "cut":                             # file truncated to a fraction
            if f not in m:
                return
            size = os.path.getsize(s.p(rel))
            n = size * e.get("pc", 50) // 100
            if "bound" in e:                         # right behind one of its datasets
                with open(s.p(rel), "rb") as fh:
                    ends = [x.end() for x in re.finditer(rb"</childActivityDataset>\n?", fh.read())]
                if ends:
                    n = min(ends[e["bound"] % len(ends)] + e.get("more", 0), size - 3)
            os.truncate(s.p(rel), max(0, n)); s.touch(s.p(rel))
            m[f] = None
            unstable.add((d, f))
        else:
            raise ValueError(k)
        self.note(unstable, k in ("swap", "pswap", "relink"))

    # ---- running -----------------------------------------------------------------------------------------------------
    def run(self):
        try:
            self.build()
            self.prepare()
            for i, st in enumerate(self.plan["steps"]):
                self.step(i, st)
            self.judged(self.finish)
        finally:
            self.result = {
                "viol": self.viol, "digest": self.sim.digest.hexdigest(), "shape": self.sim.shape.hexdigest()[:16], "stats": self.sim.stats,
                "sim_ns": self.sim.elapsed, "steps": self.sim.step_no, "phases": self.phases}
        return self.result

    def judged(self, oracle, *args):
        """What an oracle can't even read (a file of another type, a record without its fields) is not what the property promises."""
        try:
            oracle(*args)
        except (AttributeError, LookupError, TypeError, ValueError, EOFError, AssertionError) as e:
            at = traceback.extract_tb(e.__traceback__)[-1]
            self.bad("%s at %s:%d" % (UNREADABLE, os.path.basename(at.filename), at.lineno), "%s: %s; in: %s" % (type(e).__name__, e, at.line))

    def prepare(self):
        pass

    def finish(self):
        pass

    def step(self, i, st):
        t = st["t"]
        if t == "edit":
            self.sim.advance(st.get("ns", 1000))
            self.edit(st["edit"])
        elif t == "wait":
            self.sim.advance(st["ns"])
        elif t == "power":
            self.sim.power_loss(st.get("salt", 0))
        elif t == "phase":
            self.before_phase(i, st)
            ph = self.sim.phase(st["nodes"], sched=st.get("sched"), faults=st.get("faults"),
                                edits=[(a, (lambda e=e: self.edit(e))) for a, e in st.get("edits", [])],
                                order=st.get("order", 0), user=lambda nid, k: self.user(st, nid, k))
            self.phases.append(ph)
            self.judged(self.after_phase, i, st, ph)
        else:
            self.other_step(i, st)

    def user(self, st, nid, k):
        """What the user does between two commands of one process."""
        c = next(n for n in st["nodes"] if n["id"] == nid)["cmds"][k]
        self.sim.advance(c.get("ns", 1000))
        if c.get("edit"):
            self.edit(c["edit"])

    def other_step(self, i, st):
        raise ValueError(st["t"])

    def before_phase(self, i, st):
        pass

    def after_phase(self, i, st, ph):
        pass

    # ---- what a command may have seen -----------------------------------------------------------------------------------
    def windows(self, ph, nid):
        """(first step, last step or None) of each command of a node."""
        out = {}
        for step, n, text in ph.marks:
            if n != nid:
                continue
            w = text.split(" ")
            if w[0] == "begin":
                out[int(w[1])] = [step, None]
            elif w[0] == "end":
                out[int(w[1])][1] = step
        return [out[k] for k in sorted(out)]

    def snapshots(self, lo, hi):
        """Model states between two steps, first the one in force at lo."""
        before = [t for t in self.timeline if t[0] <= lo]
        inside = [t for t in self.timeline if lo < t[0] and (hi is None or t[0] <= hi)]
        return before[-1:] + inside

    def judge_data(self, src, data, lo, hi, what, cls="wrong data"):
        """Compare extracted data with the model over a window of steps."""
        snaps = self.snapshots(lo, hi)
        got = gen.summary(data)
        stable = len(snaps) == 1

        def files(snap):
            name = snap[3].get(src, src)
            return snap[1].get(name, {})
        if any(s[4] for s in snaps[1:]):
            return                      # another directory took the place of the source meanwhile
        if stable:
            want = expect(files(snaps[0]), self.small)
            if want is None:
                self.bad(cls, "%s returned data although a source file is cut short" % what)
            elif got != want:
                self.bad(cls, "%s: %s" % (what, diff(want, got)))
            return
        # the sources changed meanwhile: every file must come from one of its states in the window
        loose = set()
        for s in snaps[1:]:
            loose |= {f for d, f in s[2] if d == s[3].get(src, src)}
        states = {}
        for s in snaps:
            fs = files(s)
            for f in set(fs) | set(states):
                states.setdefault(f, set()).add(fs.get(f, "absent"))
        for f in states:
            for s in snaps:
                if f not in files(s):
                    states[f].add("absent")
        byfile = {}
        for row in got:
            byfile.setdefault(row[0], []).append(row)
        for f in set(states) | set(byfile):
            if f in loose or not SPOLD(f):
                continue
            rows = sorted(byfile.get(f, []))
            ok = False
            for st in states.get(f, {"absent"}):
                if st == "absent":
                    ok |= not rows
                elif st is None:
                    ok = True
                else:
                    ok |= rows == expect({f: st}, self.small)
            if not ok:
                self.bad(cls, "%s: file %s: got %r, which is none of its states in that time (%r)" % (what, f, rows[:2], sorted(map(str, states.get(f, [])))))

    # ---- output directories -----------------------------------------------------------------------------------------------
    def out_root(self, env=None):
        e = dict(self.sim.env); e.update(env or {})
        o = e.get("OCELOT_OUTPUT")
        if o:
            return self.sim.canonical(os.path.relpath(o.replace("$ROOT", self.sim.root), self.sim.root))
        return "data/Ocelot/model-runs"

    def entries(self, rel):
        try:
            return sorted(os.listdir(self.sim.p(rel)))
        except OSError:
            return []

    def read(self, rel):
        try:
            with open(self.sim.p(rel), "rb") as f:
                return f.read()
        except OSError:
            return None

    def unpickle(self, rel):
        b = self.read(rel)
        if b is None:
            raise Violation("%s is missing" % rel)
        try:
            return pickle.loads(b)
        except Exception as e:
            raise Violation("%s cannot be read: %r" % (rel, e))

    def loglines(self, rel):
        """Parsed whole lines of a log, and the unfinished rest."""
        b = self.read(rel)
        if b is None:
            return None, b""
        parts = b.split(b"\n")
        out = []
        for x in parts[:-1]:
            try:
                out.append(json.loads(x.decode("utf-8")))
            except Exception:
                out.append({"type": "<garbage>", "raw": x[:200].decode("utf-8", "replace")})
        return out, parts[-1]


def expect(files, small=True):
    rows = []
    for f, st in files.items():
        if not SPOLD(f):
            continue
        if st is None:
            return None
        origin, v = st
        rows += [(f,) + r[1:] for r in gen.expect({origin: v}, small)]
    return sorted(rows)


def diff(want, got):
    w, g = set(map(str, want)), set(map(str, got))
    miss, extra = sorted(w - g), sorted(g - w)
    if not miss and not extra:
        return "same datasets, other multiplicity: %d expected, %d found" % (len(want), len(got))
    return "missing %d (%s) unexpected %d (%s)" % (len(miss), miss[0][:160] if miss else "", len(extra), extra[0][:160] if extra else "")
