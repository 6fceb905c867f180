#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--scenario S] [--build-only]

Builds the harness of PROPERTY from /repo's working tree, explores its scenarios and writes
/verif/evidence/PROPERTY.json. Exit 0: property held on everything explored, 1: VIOLATION, 2: no answer."""
import sys, os, subprocess, json, hashlib, time, argparse, glob, shutil, threading, re
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
RT_FLAGS = "-std=c++20 -O2 -g -fPIC -shared -fno-stack-protector -fno-builtin -fno-tree-loop-distribute-patterns -Wall -Wextra".split()
H_FLAGS = ("-std=c++20 -O1 -g -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -foptimize-sibling-calls -fno-lifetime-dse "
           "-DASYNCPP_HAS_TSAN=0 -DASYNCPP_HAS_ASAN=0 -DASYNCPP_HAS_VALGRIND=0 -w").split()

# Every scenario that is cheap is explored again in a binary built like a release: optimised and without assertions
VARIANTS = {"": [], "release": ["-O2", "-DNDEBUG"]}

def die(msg, code=2):
    print("ERROR: " + msg); sys.stdout.flush(); os._exit(code)

def sha(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def build_to(out, cmd):
    """run cmd producing out atomically"""
    tmp = out + ".%d.tmp" % os.getpid()
    rc, txt = run(cmd + ["-o", tmp])
    if rc: return txt
    os.replace(tmp, out)
    return None

def prune_cache(keep):
    try:
        fs = sorted((os.path.getmtime(f), f) for f in glob.glob(BUILD + "/*") if os.path.isfile(f))
        for _, f in fs[:-keep]: os.unlink(f)
    except OSError: pass

def build(prop):
    """Returns the executable for each variant"""
    os.makedirs(BUILD, exist_ok=True)
    prune_cache(400)
    hdrs = [f for d in ("include",) for f in glob.glob(REPO + "/" + d + "/**/*", recursive=True) if os.path.isfile(f)]
    rt = [V + "/mcrt/mcrt.cpp", V + "/mcrt/mc.h"]
    so = BUILD + "/libmcrt-%s.so" % sha(rt, " ".join(RT_FLAGS))
    soname = os.path.basename(so)
    srcs = sorted(glob.glob(V + "/harness/%s*.cpp" % prop.lower()))
    if not srcs: die("no harness for " + prop)
    common = glob.glob(V + "/harness/*.h") + [V + "/mcrt/mc.h"]
    jobs = []
    mainobj = BUILD + "/main-%s.o" % sha([V + "/mcrt/main.cpp", V + "/mcrt/mc.h"])
    objs = {v: [] for v in VARIANTS}
    if not os.path.exists(so): jobs.append((so, ["g++"] + RT_FLAGS + ["-Wl,-soname," + soname, V + "/mcrt/mcrt.cpp", "-ldl"]))
    if not os.path.exists(mainobj): jobs.append((mainobj, ["g++", "-std=c++20", "-O1", "-c", "-I" + V + "/mcrt", V + "/mcrt/main.cpp"]))
    for s in srcs:
        first = open(s).readline()
        extra = first.split("FLAGS:")[1].split() if "FLAGS:" in first else []
        deps = [d for d in glob.glob(V + "/harness/*.cpp") if d != s and '"%s"' % os.path.basename(d) in open(s).read()]
        for v, vf in VARIANTS.items():
            fl = H_FLAGS + extra + vf
            o = BUILD + "/%s-%s.o" % (os.path.basename(s)[:-4], sha(hdrs + common + [s] + deps, " ".join(fl)))
            objs[v].append(o)
            if not os.path.exists(o):
                jobs.append((o, ["g++"] + fl + ["-I" + REPO + "/include", "-I" + V + "/mcrt", "-I" + V + "/harness", "-c", s]))
    with ThreadPoolExecutor(8) as ex:
        for (o, c), r in zip(jobs, ex.map(lambda j: build_to(*j), jobs)):
            if r is not None:
                print(r[-6000:]); die("build of %s failed" % os.path.basename(o))
    exes = {}
    for v in VARIANTS:
        exe = BUILD + "/%s-%s" % (prop, sha(objs[v] + [so, mainobj]))
        if not os.path.exists(exe):
            r = build_to(exe, ["g++", "-no-pie", "-Wl,-z,now"] + objs[v] + [mainobj, so, "-Wl,-rpath," + BUILD])
            if r is not None: print(r[-3000:]); die("link failed")
        exes[v] = exe
    return exes

def known(prop):
    out = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) scenario=(\S+) match="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def symbolize(exe, pcs):
    out = []
    for n, pc in pcs:
        # hook return addresses point behind the call
        a = int(pc, 16) - (0 if n in ("at",) else 1)
        _, t = run(["addr2line", "-Cfpie", exe, hex(a)])
        t = t.replace(REPO + "/", "").replace(V + "/", "")
        out.append("%s: %s" % (n, re.sub(r"\s*\n\s*", " <- ", t.strip())[:400]))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--scenario", action="append"); ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--keep-going", action="store_true"); ap.add_argument("-v", action="store_true")
    ap.add_argument("--bound"); ap.add_argument("--weak"); ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    exes = build(prop)
    exe = exes[""]
    if a.build_only: return 0
    tb = time.time() - t0
    rc, txt = run([exe, "--list"])
    if rc: die("cannot list scenarios")
    scs = []
    for l in txt.split("\n"):
        f = l.split()
        if len(f) == 6:
            if tier == "quick" and int(f[5]) & 4: continue
            if a.scenario and f[0] not in a.scenario: continue
            scs.append(f[0])
    if not scs: die("no scenarios")
    # soft limits: exploration stops at the deepest completed bound; they are far above the usual need
    budget = a.budget or (500.0 if tier == "quick" else 3000.0)
    cap = 100.0 if tier == "quick" else 1500.0
    kn = known(prop)
    res, procs, lock, stop = {}, set(), threading.Lock(), threading.Event()
    tmpd = BUILD + "/run-%s-%d" % (prop, os.getpid())
    os.makedirs(tmpd, exist_ok=True)
    infra = []
    def split(k):
        """scenario and variant of a result"""
        s, _, v = k.partition("@")
        return s, v
    def one(k):
        if stop.is_set(): return
        s, variant = split(k)
        left = budget - (time.time() - t0)
        out = tmpd + "/" + k + ".json"
        cmd = [exes[variant], "--run", s, "--tier", tier, "--time", "%.1f" % max(2.0, min(cap, left)), "--out", out]
        if a.bound: cmd += ["--bound", a.bound]
        if a.weak: cmd += ["--weak", a.weak]
        for sc, m, _ in kn:
            if sc in (s, "*"): cmd += ["--ignore", m]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        with lock: procs.add(p)
        try: txt = p.communicate(timeout=max(2.0, min(cap, left)) + 120)[0]
        except subprocess.TimeoutExpired:
            p.kill(); txt = "did not end within its limits; " + p.communicate()[0]
        with lock: procs.discard(p)
        if stop.is_set() and p.returncode not in (0, 1): return
        if p.returncode not in (0, 1) or not os.path.exists(out):
            with lock: infra.append("scenario %s: exit %s: %s" % (k, p.returncode, txt[-1500:]))
            return
        r = json.load(open(out))
        with lock: res[k] = r
        if r.get("violation") and not a.keep_going:
            stop.set()
            with lock:
                for q in list(procs):
                    try: q.kill()
                    except OSError: pass
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, scs))
    cheap = 0.3 if tier == "quick" else 10.0
    again = [s + "@" + v for v in VARIANTS if v for s in scs if s in res and not res[s].get("violation") and res[s]["wall"] <= cheap]
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, again))
    scs += again
    viol = []
    rdir = V + "/evidence/replays"
    for s in scs:
        r = res.get(s)
        if not r or not r.get("violation"): continue
        v = r["violation"]
        os.makedirs(rdir, exist_ok=True)
        rp = "%s/%s_%s.replay" % (rdir, prop, s)
        open(rp, "w").write(v["replay"] + "\n")
        exe = exes[split(s)[1]]
        rc, txt = run([exe, "--run", split(s)[0], "--replay", rp, "--trace"])
        conf = [l for l in txt.split("\n") if l.startswith("REPLAY ")]
        if not conf or conf[-1].split(" ", 2)[1] != "violation":
            # the same schedule and choices behave differently the second time: what the code does depends on the contents of
            # memory it never wrote (or on addresses); the execution that failed was real, so it is reported
            v["msg"] += " (depends on uninitialised or unrelated memory: a replay of the same execution ended with: %s)" % (conf[-1:] or ["nothing"])[0]
        pcs = [tuple(l.split()[1:]) if len(l.split()) == 3 else (" ".join(l.split()[1:-1]), l.split()[-1]) for l in txt.split("\n") if l.startswith("PC ")]
        sym = symbolize(exe, pcs)
        tr = []
        cache = {}
        for l in txt.split("\n"):
            m = re.search(r"@([0-9a-f]+)$", l)
            if m:
                k = m.group(1)
                if k not in cache:
                    cache[k] = symbolize(exe, [("x", k)])[0][3:200]
                l = l[:m.start()] + "  " + cache[k]
            if not l.startswith("PC "): tr.append(l)
        open(rp + ".txt", "w").write("property %s scenario %s\n%s\n\n%s\n\ntrace:\n%s\n" % (prop, s, v["msg"], "\n".join(sym), "\n".join(tr)))
        viol.append((s, v["msg"], rp, sym, v.get("deviations")))
    shutil.rmtree(tmpd, ignore_errors=True)
    wall = time.time() - t0
    tot = lambda k: sum(r[k] for r in res.values())
    for s in scs:
        if s in res and (a.v or a.keep_going):
            r = res[s]
            print("  %-34s bound %d/%d%s weak %d exec %d states %d trans %d %.1fs %s %s" % (s, r["completed"], r["bound"], " EXH" if r["exhaustive_schedules"] else (" capped" if r["capped"] else ""), r["weak"], r["executions"], r["states"], r["transitions"], r["wall"], "VIOL" if r.get("violation") else "", json.dumps(r["outcomes"])[:160]))
    for sc, m, desc in kn:
        n = sum(r["ignored_by"].get(m, 0) for s, r in res.items() if sc in (split(s)[0], "*"))
        if n: print("KNOWN-FINDING: property=%s %s" % (prop, desc))
    for s, msg, rp, sym, dev in viol:
        print("scenario %s: %s" % (s, msg))
        for l in sym[:8]: print("    " + l)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    if not a.scenario:
        ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
              "coverage": {"states": tot("states"), "transitions": tot("transitions"),
                           "traces_validated_against_impl": tot("complete"),
                           "samples": [{"scenario": s, "trace": x} for s, r in res.items() for x in r["samples"][:2]][:60],
                           "exhaustive": bool(res) and all(r["exhaustive_schedules"] and not r["weak_pruned"] for r in res.values()) and not infra,
                           "note": "every explored trace is an execution of the real headers under the controlled scheduler; no separate model exists",
                           "executions_started_including_pruned": tot("executions"),
                           "scenarios": {s: {k: r[k] for k in ("bound", "completed", "weak", "exhaustive_schedules", "capped", "executions", "transitions", "states", "pruned", "max_depth", "assume_skipped", "ignored", "outcomes")} for s, r in res.items()}},
              "assumptions": ["bounded number of threads, operations and deviations (preemptions, early timeouts, spurious events) per scenario as listed",
                              "stale loads per execution bounded by 'weak'; stores become visible in execution order (no load buffering)",
                              "state caching identifies states by 64 bit hashes of their happens-before history",
                              "malloc never reuses memory within an execution"],
              "wall_s": round(wall, 2),
              "violations": len(viol)}
        ev["coverage"]["violations_found"] = [{"scenario": s, "message": m, "replay": rp} for s, m, rp, _, _ in viol]
        os.makedirs(V + "/evidence", exist_ok=True)
        json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s %s: %d scenarios, %d executions, %d transitions, %d states, build %.1fs, total %.1fs" % (prop, tier, len(res), tot("executions"), tot("transitions"), tot("states"), tb, wall))
    capped = [s for s, r in res.items() if r["capped"]]
    if capped: print("  (bound not completed within limits: %s)" % ", ".join("%s@%d/%d" % (s, res[s]["completed"], res[s]["bound"]) for s in capped))
    if viol: return 1
    if infra:
        for i in infra: print("ERROR: " + i)
        return 2
    return 0

if __name__ == "__main__":
    rc = main(); sys.stdout.flush(); os._exit(rc)
