"""Plan pieces shared by the checks."""
import copy
import os
import random

import rich
from sim import NSEC, h64

GRANS = [1, 1, 4000000, NSEC, 2 * NSEC]


def clock(rng, gran=None, backwards=False):
    lo, hi = rng.choice([(1000, 3000), (1000, 3000000), (100000, 40000000), (1000, 900000000)])
    c = {"start": (1400000000 + rng.randrange(10 ** 8)) * NSEC + rng.randrange(NSEC), "tick": [lo, hi], "seed": rng.randrange(2 ** 31),
         "gran": rng.choice(GRANS) if gran is None else gran, "jumps": {}}
    if c["seed"] % 5 < 2:
        c["srcgran"] = GRANS[c["seed"] // 5 % len(GRANS)]
    return c


def schedule(rng, nodes=2, steps=400):
    k = rng.randrange(5)
    if k == 0:
        return {"kind": "rand", "seed": rng.randrange(2 ** 31), "p": 0.9}
    if k == 1:
        return {"kind": "rand", "seed": rng.randrange(2 ** 31), "p": 0.5}
    if k == 2:
        return {"kind": "rand", "seed": rng.randrange(2 ** 31), "p": rng.choice([0.02, 0.1])}
    return {"kind": "prio", "seed": rng.randrange(2 ** 31), "change": sorted(rng.sample(range(1, steps), rng.randint(1, 4)))}


NAMES = ["fetch", "allocate stuff", "link_markets", "ünïcode name", "a-b_c", "x", "clean up (all)", "f/slash", "same", "same", "drop data", "lambda"]
DOCS = [None, "", "Plain description.", "With *emphasis* and a list:\n\n* one\n* two\n", "Multi\nline `text` ``code``.", "Ends with unicode – é ü 漢字."]
ROWS = ["plain row", "row with <b>markup</b> & ampersand", "ünï – 漢字", "", "x" * 500, "semi;colon \"quoted\" 'single'", "tab\tsep", "123.5", "{braces} %s %d"]


def fspec(rng, i, rich=True):
    s = {"u": "u%d" % i, "n": rng.choice(NAMES), "doc": rng.choice(DOCS), "kind": rng.choice(["ident", "inplace", "inplace", "copy", "drop", "dup", "many", "grow"]), "k": rng.randrange(3)}
    if rich:
        s["form"] = rng.choice(["plain", "plain", "plain", "partial", "callable", "wrapt", "perds"])
        nr = rng.choice([0, 0, 1, 2, 5])
        if rng.random() < 0.5:
            cols = rng.randint(1, 3)
            s["table"] = {"title": rng.choice(["T%d" % i, "Tïtle %d" % i]), "columns": ["col%d-%d" % (i, c) for c in range(cols)]}
            s["rows"] = [["%s r%d.%d.%d" % (rng.choice(ROWS), i, r, c) if rng.random() < .8 else rng.randrange(1000) for c in range(cols)] for r in range(nr)]
        else:
            s["rows"] = ["%s r%d.%d" % (rng.choice(ROWS), i, r) for r in range(nr)]
        if rng.random() < 0.3:
            s["detail"] = ["detail %d.%d" % (i, r) for r in range(rng.randint(1, 3))]
        s["yields"] = rng.choice([0, 0, 1, 3])
        if s["form"] == "perds":
            s["rows"] = []; s.pop("detail", None); s["kind"] = "inplace"
    return s


def nest(rng, fs, depth=0):
    """Arrange function specs in nested lists, tuples and collections."""
    out = []
    i = 0
    while i < len(fs):
        if depth < 2 and rng.random() < 0.3:
            n = rng.randint(1, min(3, len(fs) - i))
            inner = nest(rng, fs[i:i + n], depth + 1)
            k = rng.randrange(3)
            out.append({"list": inner} if k == 0 else {"tuple": inner} if k == 1 else {"coll": "C%d" % i, "items": inner})
            i += n
        else:
            out.append(fs[i]); i += 1
    return out


def flat(cfg):
    out = []
    for x in cfg or []:
        if "list" in x:
            out += flat(x["list"])
        elif "tuple" in x:
            out += flat(x["tuple"])
        elif "coll" in x:
            out += flat(x["items"])
        else:
            out.append(x)
    return out


def config(rng, lo=1, hi=5, rich=True, start=0):
    fs = [fspec(rng, start + i, rich) for i in range(rng.randint(lo, hi))]
    r = rng.random()
    if rich and r < 0.35:
        return nest(rng, fs)
    if rich and r < 0.5:
        return {"coll": "Main", "items": nest(rng, fs)}
    return fs


def cfg_functions(cfg):
    return flat(cfg if isinstance(cfg, list) else [cfg])


def strategy(rng, n):
    k = rng.randrange(5)
    if k == 0:
        return rng.randint(1, 4)
    if k == 1:
        return str(rng.randint(1, 3))
    if k == 2:
        a = rng.randrange(n + 1); return "%d:%d" % (a, a + rng.randrange(n + 1))
    if k == 3:
        a = rng.randrange(n + 1); return "%d:%d:%d" % (a, a + rng.randrange(n + 2), rng.randint(1, 3))
    return 1


def selected(save, index):
    """Which function numbers a strategy selects, from its documentation."""
    if save is None:
        return None
    s = str(save)
    if ":" not in s:
        return index % int(s) == 0
    p = [int(x) for x in s.split(":")]
    step = p[2] if len(p) == 3 else 1
    return p[0] <= index <= p[1] and (index - p[0]) % step == 0


def sources(rng, dirs=1, lo=1, hi=5, odd=True):
    out = {}
    pool = ["f%d.spold" % i for i in range(8)]
    if odd:
        pool += ["UPPER.SPOLD", ".hidden.spold", "name with space.spold", "Ünï.spold"]
    for d in range(dirs):
        fs = {f: rng.randint(1, 3) for f in rng.sample(pool, rng.randint(lo, hi))}
        if odd and rng.random() < 0.3:
            fs[rng.choice(["readme.txt", ".DS_Store", "notes.spold.bak"])] = 1
        if odd and rng.random() < 0.1:               # two files whose names differ in case only
            f = rng.choice(sorted(fs))
            if f.swapcase().lower() == f:
                fs[f.upper()] = rng.randint(1, 3)
        if not any(f.lower().endswith(".spold") for f in fs):
            fs["f0.spold"] = 1
        out["s%d" % d] = fs
    return out


def ages(rng, plan):
    """Source files may be of any age, also from the future."""
    if rng.random() < 0.4:
        plan["age"] = rng.choice([5, 3600, 86400 * 40, -3600, -86400 * 400]) * NSEC


WERR = ["ENOSPC", "EIO", "EDQUOT"]


def fault_for(rng, ev, kinds):
    """A fault suited to one operation of a profile; None if no kind applies."""
    op, flags, size = ev[2], ev[5], ev[6]
    k = rng.choice(kinds)
    if k == "die_after":
        return ["die_after", rng.randrange(size) if op == "write" and size > 1 and rng.random() < 0.85 else -1]
    if k in ("die", "int", "int_after"):
        return [k]
    if k == "power":
        return ["power", rng.randrange(1000)]
    if k == "full":
        return ["full", rng.choice(["ENOSPC", "EDQUOT"])]
    if k == "limit":
        if op == "write" and size > 1 or op == "read" and size > 1:
            return ["limit", rng.choice([1, max(1, size // 2), max(1, size - 1), rng.randint(1, size)])]
        return None
    if k == "fail":
        if op == "write":
            return ["fail", rng.choice(WERR)]
        if op == "read":
            return ["fail", "EIO"]
        if op == "open":
            return ["fail", rng.choice(["EIO", "EMFILE", "EACCES"] + (["ENOSPC"] if flags & 0o100 else []))]
        if op in ("mkdir", "rename", "symlink", "link"):
            return ["fail", rng.choice(["ENOSPC", "EIO", "EACCES"])]
        if op in ("fsync", "truncate", "utime", "chmod"):
            return ["fail", rng.choice(["EIO", "ENOSPC"] if op != "utime" else ["EPERM", "EIO"])]
        if op == "listdir":
            return ["fail", rng.choice(["EIO", "EMFILE"])]
        if op in ("unlink", "rmdir"):
            return ["fail", "EIO"]
        if op in ("stat", "lstat", "access"):
            return ["fail", "EIO"]
    return None


MODELS = ["cutoff", "cutoff", "cutoff_ecoinvent_row", "consequential"]


PY = "ocelot.transformations."
PLUS = [[PY + "parameterization.recalculate_all_parameterized_datasets"], [PY + "parameterization.recalculate_all_parameterized_datasets"], [PY + "ensure_mandatory_properties"]]


def realise(plan, share, byname=0.0, cap=5):
    """Turns a share of the plans (by their seed) into plans on generated databases with the functions of the real system models."""
    rng = random.Random(h64(plan["seed"], "real"))
    if rng.random() >= float(os.environ.get("DST_SHARE", share)):
        return plan
    cmds = [c for st in plan["steps"] if st["t"] == "phase" for n in st["nodes"] for c in n["cmds"]]
    plan["steps"] = [st for st in plan["steps"] if st["t"] != "edit"]
    plan["dbs"] = {}
    size = rng.choice([0.3, 0.3, 0.5, 0.8])
    names = {}
    for d in plan["dirs"]:
        seed = rng.randrange(2 ** 32)
        plan["dbs"][d] = {"seed": seed, "size": size}
        names[d] = sorted(rich.files(seed, size))
    plan["dirs"] = {}
    plan["cap"] = cap
    for st in plan["steps"]:
        for n in st.get("nodes", []):
            n["fresh"] = True
    for c in cmds:
        if c["do"] != "run" or c["config"] and str(c["config"]).find("z0") > 0:
            continue
        c["config"] = {"real": rng.choice(MODELS)}
        if rng.random() < byname:
            c["config"]["byname"] = 1
        elif rng.random() < 0.4:
            c["config"]["upto"] = rng.randint(1, 25)
        elif rng.random() < 0.4:
            c["config"]["plus"] = rng.choice(PLUS)
        c["want"] = False
        if c.get("follow") and c["src"] in names:
            c["follow"] = rng.choice(names[c["src"]])
        if "save" in c and rng.random() < 0.5:
            c["save"] = rng.choice([1, 5, "7", "2:9", "0:30:4"])
    return plan


def enlarge(plan, check, share=0.03):
    """A few plans have something in plenty: files, functions, rows of one function, model runs."""
    rng = random.Random(h64(plan["seed"], "large"))
    if rng.random() >= float(os.environ.get("DST_LARGE", share * 2 if check in ("C05", "C09", "C11", "C14") else share)) or "dbs" in plan:
        return plan
    cmds = [c for st in plan["steps"] if st["t"] == "phase" for n in st["nodes"] for c in n["cmds"]]
    fills = [st for st in plan["steps"] if st["t"] == "fill"]
    runs = [c for c in cmds if c["do"] == "run" and isinstance(c.get("config"), (list, dict)) and cfg_functions(c["config"])]
    kinds = (["runs"] * 3 if fills else []) + (["rows", "rows", "functions"] if runs else []) + (["files"] * (4 if check in ("C01", "C02", "C08", "C14") else 1) if plan.get("dirs") else [])
    kind = rng.choice(kinds or [None])
    if kind == "runs":
        make = plan.pop("entry")
        fills[0]["entries"] += [make(rng, 100 + n) for n in range(rng.choice([60, 120, 300]))]
    elif kind == "files":
        d = rng.choice(sorted(plan["dirs"]))
        plan["dirs"][d].update({"h%03d.spold" % i: 100 + rng.randrange(90) if check == "C14" else rng.randint(1, 3) for i in range(rng.choice([60, 120, 280]))})
    elif kind == "functions":
        cfg = rng.choice(runs)["config"]
        cfg = cfg if isinstance(cfg, list) else cfg["items"]
        for i in range(rng.choice([15, 40, 110])):
            f = fspec(rng, 1000 + i)
            f.update(kind=rng.choice(["ident", "inplace"]), form="plain", yields=0)
            cfg.insert(rng.randrange(len(cfg) + 1), f)
    elif kind == "rows":
        fs = [f for c in runs for f in cfg_functions(c["config"]) if "rows" in f and f.get("form") != "perds"]
        if not fs:
            return plan
        f = rng.choice(fs)
        cols = len(f["table"]["columns"]) if f.get("table") else 0
        if rng.random() < 0.6:
            f["detail"] = ["detail %s.%d" % (f["u"], r) for r in range(rng.choice([150, 700, 1200, 1200]))]
        f["rows"] = f["rows"] + [["%s.%d.%d" % (f["u"], r, c) for c in range(cols)] if cols else "%s.%d" % (f["u"], r) for r in range(rng.choice([150, 400, 1500, 1500]))]
    else:
        return plan
    plan["large"] = kind
    plan["cap"] = 4
    return plan


def respell(plan):
    """Some commands are given their source directory in another way: with a slash at the end, with dots, through a link."""
    rng = random.Random(h64(plan["seed"], "spell"))
    if rng.random() < 0.35:
        how = rng.choice(["slash", "double", "dots", "odd", "odd", None])
        for st in plan["steps"]:
            for nd in st.get("nodes", []):
                for c in nd["cmds"]:
                    if "src" in c and not c.get("rel"):
                        k = how or rng.choice(["slash", "double", "dots", "odd", None])
                        if k and (k != "odd" or c["src"] in plan.get("dirs", {}) or c["src"] in plan.get("dbs", {})):
                            c["spell"] = k
    return plan


def call_point(rng, seen):
    """One of the places passed, and one of the times it was passed.  A third under one of the exception handlers of ocelot's code,
    each as likely as the other; a third anywhere in ocelot's code; the others in its libraries, each library and each of its
    functions as likely as the other."""
    own = sorted(x for x in seen if "|" not in x)
    guards = {}
    for x in own:
        guards.setdefault(x.partition("^")[2], []).append(x)
    if len(guards) > 1 and rng.random() < 0.4:
        place = rng.choice(guards[rng.choice(sorted(guards))])
        return [place, rng.randrange(seen[place])]
    libs = {}
    for x in sorted(seen):
        if "|" in x:
            lib = x.split("|")[0]
            libs.setdefault("std" if lib.startswith("std/") else lib, []).append(x)
    if libs and (not own or rng.random() < 0.5):
        own = libs[rng.choice(sorted(libs))]
    place = rng.choice(own)
    return [place, rng.randrange(seen[place])]


class BaseCheck:
    world = None
    share = 0.0              # of plans with real system models
    byname = 0.0
    cap = 5

    def draw(self, rng):
        return realise(respell(self.base(rng)), self.share, self.byname, self.cap)

    def explore(self, rng, tier):
        raise NotImplementedError

    def shrinks(self, plan):
        return iter(())

    def nontrivial(self, plan, res):
        return False


ZONES = ["UTC", "UTC", "WST-13", "EAS+11:30", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0"]


def surroundings(plan):
    """Time zone and text encoding the user's system has; a function of the plan's seed."""
    h = h64(plan["seed"], "surroundings")
    plan.setdefault("tz", ZONES[h % len(ZONES)])
    plan.setdefault("locale", "C" if h // 16 % 5 == 0 else None)
