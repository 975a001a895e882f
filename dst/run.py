"""Entry point of every check: builds the shim, starts the workers, aggregates, writes evidence, reports."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = next((p for p in ("/opt/venv/bin/python", sys.executable) if os.path.exists(p)), sys.executable)
NCLS = 8

# runs (seeds) per class for quick / thorough
BUDGET = json.load(open(os.path.join(HERE, "budget.json")))


def env_for(hashseed, tmp):
    e = dict(os.environ)
    e.update(LD_PRELOAD=os.path.join(HERE, "build", "libdst.so"), PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", TZ="UTC", LC_ALL="C.UTF-8", HOME=tmp, PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"))
    for k in ("OCELOT_OUTPUT", "PYTHONPATH", "XDG_DATA_HOME"):
        e.pop(k, None)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


def cmd(args):
    pre = ["setarch", "-R"] if ASLR_OFF else []
    return pre + [PY, os.path.join(HERE, "worker.py")] + args


def can_setarch():
    try:
        return subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    except OSError:
        return False


ASLR_OFF = can_setarch()


def replay(path, tmp, tag="replay"):
    d = json.load(open(path))
    out = os.path.join(tmp, tag + ".json")
    r = subprocess.run(cmd(["replay", "--check", d["property"], "--plan", path, "--out", out]), env=env_for(d["plan"].get("hashseed", "0"), tmp),
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if r.returncode or not os.path.exists(out):
        return None, r.stderr.decode()[-2000:]
    return json.load(open(out)), ""


def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % prop):
                out.append(l.split(" ", 2)[2].strip())
    return out


def main():
    t0 = time.time()
    subprocess.run(["bash", os.path.join(HERE, "build.sh")], check=True)
    tmp = tempfile.mkdtemp(prefix="dstrun-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        if sys.argv[1] == "--replay":
            res, err = replay(os.path.abspath(sys.argv[2]), tmp)
            d = json.load(open(sys.argv[2]))
            if res is None:
                print("replay failed to run:", err); return 2
            want = d["violation"]["cls"]
            hit = [v for v in res["viol"] if v["cls"] == want]
            if hit:
                print("reproduced: %s: %s" % (hit[0]["cls"], hit[0]["msg"]))
                print("event log digest", res["digest"], "(identical)" if res["digest"] == d["digest"] else "(differs from recorded %s)" % d["digest"])
                print("VIOLATION property=%s replay=%s" % (d["property"], sys.argv[2]))
                return 1
            print("not reproduced (violations now: %s)" % res["viol"])
            return 0
        prop = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        print("%s %s VERIF_SEED=%d" % (prop, tier, seed), flush=True)
        b = BUDGET[prop][tier]
        runs = int(os.environ.get("DST_RUNS", b["runs"])); cap = float(os.environ.get("DST_CAP", b["cap"]))
        ncpu = max(1, min(NCLS, len(os.sched_getaffinity(0)) if hasattr(os, "sched_getaffinity") else os.cpu_count() or 1))
        waves = (NCLS + ncpu - 1) // ncpu
        pending = list(range(NCLS)); live = {}; outs = []; failed = []
        stop = False
        hard = t0 + (cap + 150) * waves + 120
        while pending or live:
            while pending and len(live) < ncpu and not stop:
                k = pending.pop(0)
                out = os.path.join(tmp, "w%d.json" % k)
                err = open(os.path.join(tmp, "w%d.err" % k), "w")
                p = subprocess.Popen(cmd(["explore", "--check", prop, "--cls", str(k), "--ncls", str(NCLS), "--runs", str(runs), "--seed", str(seed),
                                          "--tier", tier, "--deadline", str(cap), "--out", out]),
                                     env=env_for(k, tmp), stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
                live[k] = (p, out)
            if stop:
                pending = []
            for k in list(live):
                p, out = live[k]
                if p.poll() is None:
                    continue
                del live[k]
                if os.path.exists(out):
                    o = json.load(open(out))
                    outs.append(o)
                    if o["error"]:
                        failed.append(o["error"])
                    if o["viol"]:
                        stop = True
                else:
                    failed.append("worker %d ended with %s: %s" % (k, p.returncode, open(os.path.join(tmp, "w%d.err" % k)).read()[-1500:]))
            if (stop or time.time() > hard) and live:
                if stop:
                    t1 = time.time()
                    # a short grace: others may be finishing
                    while live and time.time() - t1 < 1:
                        for k in list(live):
                            if live[k][0].poll() is not None:
                                p, out = live.pop(k)
                                if os.path.exists(out):
                                    outs.append(json.load(open(out)))
                        time.sleep(0.05)
                else:
                    failed.append("workers exceeded the hard time limit")
                for k, (p, out) in live.items():
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
                live = {}
                if not stop:
                    break
            time.sleep(0.05)
        return report(prop, tier, seed, outs, failed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        # scratch directories of killed workers
        for d in os.listdir("/dev/shm") if os.path.isdir("/dev/shm") else []:
            if d.startswith("dst-"):
                q = os.path.join("/dev/shm", d)
                try:
                    if time.time() - os.path.getmtime(q) > 3600:
                        shutil.rmtree(q, ignore_errors=True)
                except OSError:
                    pass


def report(prop, tier, seed, outs, failed, tmp, t0):
    wall = time.time() - t0
    stats, shapes, nontriv, samples = {}, set(), set(), []
    for o in outs:
        for k, v in o["stats"].items():
            stats[k] = stats.get(k, 0) + v
        shapes |= set(o["shapes"]); nontriv |= set(o["nontrivial"])
        samples += o["samples"]
    ex = sum(o["executions"] for o in outs); seeds = sum(o["seeds"] for o in outs)
    viols = [o for o in outs if o.get("viol")]
    kf = known(prop)
    real, hushed = [], []
    for o in viols:
        sig = "%s: %s" % (o["viol"]["violation"]["cls"], o["viol"]["violation"]["msg"])
        (hushed if any(k in sig for k in kf) else real).append((o, sig))
    import meta
    m = meta.META[prop]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ex, "distinct_nontrivial": len(nontriv),
            "rule": m["rule"] + " An execution counts as non-trivial if a fault fired, a source edit landed inside a running phase, there were more than two context switches or " + m.get("nontrivial", "the check's own condition held") + "; two are distinct if the sequences of (process, operation, path, injected action, errno) differ.",
            "samples": samples[:3],
            "seeds": seeds, "seeds_per_hour": round(seeds / wall * 3600), "simulated_runs_per_hour": round(ex / wall * 3600),
            "distinct_interleavings": len(shapes), "scheduler_steps": sum(o["steps"] for o in outs),
            "simulated_time_s": round(sum(o["sim_ns"] for o in outs) / 1e9, 1),
            "faults_injected": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault ")},
            "other_events": {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault ", "op "))},
            "operations_scheduled": {k[3:]: v for k, v in sorted(stats.items()) if k.startswith("op ")},
            "real_components": m["real"], "stubbed_components": m["stub"],
            "hit_wall_cap": [o["cls"] for o in outs if o["capped"]],
        },
        "assumptions": m["assume"], "wall_s": round(wall, 1), "violations": len(real)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for o, sig in hushed:
        print("KNOWN-FINDING: property=%s %s" % (prop, sig[:300]))
    code = 0
    if real:
        o, sig = real[0]
        v = o["viol"]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.json" % (prop, tier, v["plan"].get("run", 0)))
        d = {"property": prop, "violation": v["violation"], "digest": v["digest"], "plan": v["plan"], "fault_trace": v["fault_trace"],
             "verif_seed": seed, "how": "bash check.sh --replay <this file>"}
        json.dump(d, open(path, "w"), indent=1)
        res, err = replay(path, tmp)
        if res is None:
            print("harness error while replaying:", err)
        elif not any(x["cls"] == v["violation"]["cls"] for x in res["viol"]):
            print("note: the replay in a fresh process gave", res["viol"], "digest", res["digest"], "recorded", v["digest"])
            ev["coverage"]["replay"] = "did not reproduce"
        else:
            ev["coverage"]["replay"] = "reproduced in a fresh process, event log %s" % ("identical" if res["digest"] == v["digest"] else "differs")
        print("violation of %s: %s" % (prop, sig))
        print("seed %d run %s; minimised with %d executions; %s" % (seed, v["plan"].get("run"), v["tried"], ev["coverage"].get("replay")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif failed:
        print("harness error:\n" + "\n".join(failed)[:6000])
        code = 2
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d simulated executions from %d seeds, %d distinct interleavings, %.0f simulated s, faults fired %d, %.1f s wall" % (
        prop, tier, seed, ex, seeds, len(shapes), sum(o["sim_ns"] for o in outs) / 1e9, sum(v for k, v in stats.items() if k.startswith("fault ")), wall))
    return code


if __name__ == "__main__":
    sys.exit(main())
