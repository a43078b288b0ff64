#!/usr/bin/env python3
"""Builds and runs the simulation checks.  run.py C01 [--tier quick|thorough] | run.py --replay FILE"""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("EVALROUND_REPO", "/repo")
BUILD, REPLAYS, EVID = HERE + "/build", HERE + "/replays", HERE + "/evidence"
JOBS = os.cpu_count() or 4
sys.path.insert(0, HERE)
from checks import CHECKS, REAL, STUB, ASSUME

WRAPPED = "memcpy memmove memset malloc calloc free realloc aligned_alloc posix_memalign".split()
OPT = {"t": ["-O1", "-fsanitize=thread", "-fno-tree-loop-distribute-patterns", "-fno-tree-vectorize"], "p": ["-O2"],
       "a": ["-O1", "-fsanitize=address", "-fsanitize=bounds-strict", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-fno-tree-loop-distribute-patterns"]}


LOST = []    # sets of operations that could not be built


class Err(Exception):
    pass


def tree_hash(root, sub):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(os.path.join(root, sub))):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Err("command failed: " + " ".join(cmd) + "\n" + r.stdout[-6000:])


def unit(src, defs, instrumented, flavour, key):
    """one object file, cached by the content of everything it can depend on"""
    flags = ["-std=c++17", "-g"] + (OPT[flavour] + ["-fopenmp", "-w", "-I" + REPO + "/include"] if instrumented else ["-O2"])
    cmd = ["g++"] + flags + ["-D" + d for d in defs] + ["-c", os.path.join(HERE, src)]
    h = hashlib.sha256((key[instrumented] + "\0".join(cmd)).encode()).hexdigest()[:32]
    out = "%s/obj/%s-%s.o" % (BUILD, os.path.basename(src).split(".")[0], h)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        sh(cmd + ["-o", tmp])
        if instrumented:
            sh(["objcopy"] + sum([["--redefine-sym", "%s=__wrap_%s" % (f, f)] for f in WRAPPED], []) + [tmp])
        os.rename(tmp, out)
    return out


def prune():
    d = BUILD + "/obj"
    fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
    size = sum(os.path.getsize(f) for f in fs)
    while fs and size > 3 << 30:
        size -= os.path.getsize(fs[0]); os.unlink(fs.pop(0))


def build(cid, builds):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    own = tree_hash(HERE, "sim") + tree_hash(HERE, "ref") + tree_hash(HERE, "harness")
    key = {False: own, True: own + tree_hash(REPO, "include") + REPO}
    prune()
    ex = ThreadPoolExecutor(JOBS)
    jobs = []
    order = []
    for b in builds:
        ops = []
        for o in b["ops"] + ["region"]:
            name, _, d = o.partition(":")
            ops.append(("harness/%s.cpp" % name, [x for x in d.split(",") if x], True))
        rest = [("harness/driver.cpp", [], False), ("ref/ref.cpp", [], False), ("harness/catalog.cpp", [], False),
                ("harness/%s.cpp" % b["check"], b.get("defs", []), False)]
        order.append([("sim/sim.cpp", [], False)] + ops + rest)
    todo = {}
    for pick in (True, False):   # instrumented units first: they take longest
        for i, us in enumerate(order):
            for u in us:
                k = (u[0], tuple(u[1]), builds[i]["flavour"] if u[2] else "")
                if u[2] == pick and k not in todo:
                    todo[k] = ex.submit(unit, u[0], u[1], u[2], builds[i]["flavour"], key)
    exes = []
    for i, us in enumerate(order):
        objs, lost = [], []
        for u in us:
            try:
                objs.append(todo[(u[0], tuple(u[1]), builds[i]["flavour"] if u[2] else "")].result())
            except Err as e:
                # a set of operations that does not compile against this tree is left out, and said so; the rest still decides
                if not u[2] or u[0] == "harness/region.cpp":
                    raise
                lost.append(":".join([u[0]] + u[1])); LOST.append((cid, lost[-1], str(e)[-1500:]))
                print("note: %s[%s%d] runs without %s, which does not compile against this tree:\n%s" % (cid, builds[i]["flavour"], i, lost[-1], str(e)[-600:]))
        if len(lost) == len(builds[i]["ops"]):
            exes.append(None); continue
        out = "%s/%s-%s%d" % (BUILD, cid, builds[i]["flavour"], i)
        sh(["g++", "-no-pie", "-o", out + ".tmp"] + (["-fsanitize=address"] if builds[i]["flavour"] == "a" else []) + objs + ["-Wl,-z,muldefs", "-ldl", "-lpthread"])
        os.rename(out + ".tmp", out)
        exes.append(out)
    ex.shutdown()
    if not any(exes):
        raise Err("nothing of %s compiles against this tree\n%s" % (cid, LOST[-1][2]))
    return exes


def known():
    r = []
    p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=/(.*)/ (.*)", l.strip())
            if m:
                r.append(m.groups())
    return r


def replay(path):
    txt = open(path).read()
    cid = re.search(r"^check (\S+)", txt, re.M).group(1)
    fl = re.search(r"^flavour (\S+)", txt, re.M).group(1)
    i = int(fl[1:])
    exe = build(cid, CHECKS[cid]["builds"][:i + 1])[i]
    r = subprocess.run([exe, "--replay", path], text=True, stdout=subprocess.PIPE)
    print(r.stdout, end="")
    if r.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (cid, path))
    return r.returncode if r.returncode in (0, 1) else 2


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(os.path.abspath(a[1]))
    if a and a[0] == "--setup":   # nothing is kept between runs: only show that the tools are there
        for t in ("g++", "objcopy"):
            sh([t, "--version"])
        print("tools present"); return 0
    cid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--thorough" in a:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[cid]
    t0 = time.time()
    os.makedirs(REPLAYS, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    exes = build(cid, c["builds"])
    t1 = time.time()
    res, rc = [], 0
    viol = None
    for i, exe in enumerate(exes):
        if exe is None:
            continue
        b = c["builds"][i]
        runs, secs = b[tier]
        out = "%s/%s-%d.json" % (BUILD, cid, i)
        if os.path.exists(out):
            os.unlink(out)
        cmd = [exe, "--seed", str(seed), "--runs", str(runs), "--workers", str(b.get("workers", JOBS)), "--time", str(secs), "--tier", tier, "--out", out,
               "--rdir", REPLAYS, "--flavour", "%s%d" % (b["flavour"], i), "--mintime", "20" if tier == "quick" else "120"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if os.path.exists(out):
            d = json.load(open(out)); res.append(d)
        else:
            d = None
        if r.returncode == 1 and d and d["replay"]:
            # the replay must reproduce in a fresh process, twice
            ok = all(subprocess.run([exe, "--replay", d["replay"]], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 1 for _ in range(2))
            if not ok:
                print("error: the violation %s does not replay in a fresh process" % d["class"]); rc = 2; continue
            f = [k for k in known() if k[0] == cid and k[1] == d["class"] and re.search(k[2], d["message"])]
            if f:
                print("KNOWN-FINDING: property=%s %s" % (cid, f[0][3])); continue
            viol = d
            break
        if r.returncode:
            print("error: %s exited with %d\n%s" % (exe, r.returncode, r.stderr[-3000:])); rc = 2
    evidence(cid, c, tier, seed, res, t1 - t0, time.time() - t0)
    for d in res:
        print("%s[%s]: %d runs (%d distinct non-trivial), %d operations, %d faults, %d events, %.1f s" % (
            cid, d["flavour"], d["runs"], d["distinct_nontrivial"], d["ops"], d["faults"], d["steps"], d["wall"]))
        for k, v in d["maxima"].items():
            print("    max %s: %.4g" % (k, v))
    print("%s: built in %.1f s, %.1f s in all" % (cid, t1 - t0, time.time() - t0))
    if viol:
        print("%s: %s: %s" % (cid, viol["class"], viol["message"]))
        print("VIOLATION property=%s replay=%s" % (cid, viol["replay"]))
        return 1
    return rc


def evidence(cid, c, tier, seed, res, tb, wall):
    tot = lambda k: sum(d[k] for d in res)
    run_s = sum(d["wall"] for d in res) or 1e-9
    cnt, faults, mx = {}, {}, {}
    for d in res:
        for k, v in d["counters"].items():
            if k in d["fault_kinds"]:
                faults[k] = faults.get(k, 0) + v
            else:
                cnt[k] = cnt.get(k, 0) + v
        for k, v in d["maxima"].items():
            mx[k] = max(mx.get(k, 0), v)
    cov = {
        "evaluations": tot("runs"), "distinct_nontrivial": tot("distinct_nontrivial"),
        "operations_not_built": [l[1] for l in LOST], "rule": " / ".join(sorted(set(d["rule"] for d in res))),
        "samples": sum([["[%s] %s" % (d["flavour"], s) for s in d["samples"]] for d in res], []),
        "simulated_runs_per_hour": int(tot("runs") / run_s * 3600), "seeds_per_hour": int(tot("runs") / run_s * 3600),
        "simulated_seconds": tot("sim_ns") / 1e9, "events": tot("steps"), "context_switches": tot("switches"), "preemptions": tot("preemptions"),
        "parallel_regions": tot("regions"), "simulated_workers": tot("workers"), "max_simulated_threads": max([d["max_threads"] for d in res] or [0]),
        "synchronisation_operations": tot("sync_ops"), "library_operations": tot("ops"),
        "faults_injected": {k: v for k, v in sorted(faults.items()) if v}, "probes": {k: v for k, v in sorted(cnt.items())}, "maxima": mx,
        "distinct_schedules": tot("distinct_schedules"), "distinct_event_histories": tot("distinct_histories"),
        "distinctness_measure": "schedules: hash of the sequence of (event number, thread) switches of a run; histories: hash of all scheduling, synchronisation, allocation and random-draw events and of the results",
        "reexecuted_for_determinism": tot("repeat_checked"), "not_repeatable": tot("repeat_bad"),
        "components_real": REAL + c.get("real", []), "components_stubbed": STUB + c.get("stub", []),
        "builds": [{"flavour": d["flavour"], "runs": d["runs"], "planned": d["planned"], "seconds": round(d["wall"], 2)} for d in res],
        "build_seconds": round(tb, 1),
    }
    json.dump({"property": cid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": ASSUME + c.get("assume", []),
               "wall_s": round(wall, 2), "violations": tot("violations")}, open("%s/%s.json" % (EVID, cid), "w"), indent=1)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Err as e:
        print("error: " + str(e)); sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc(); sys.exit(2)
