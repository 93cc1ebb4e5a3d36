#!/usr/bin/env python3
"""Runs one property's check:  run.py C07 [--tier quick|thorough] [--seed N]
   re-runs a recorded failure:  run.py replay <file>
   builds everything once:      run.py setup

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line: it is
broken.  Exit 3: the check itself could not give an answer.
"""
import base64, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARN = os.path.join(VERIF, "harness")
REPO = "/repo"
WORK = os.path.join(VERIF, "work")
sys.path.insert(0, VERIF)
from checks_config import CHECKS, INSTR_PKGS

GO = next((g for g in ("/opt/veriftools/go1.27.3/bin/go", shutil.which("go") or "") if g and os.path.exists(g)), "go")

def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOENV="off", GOFLAGS="", GOSUMDB="off", GONOSUMDB="*",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"),
             CGO_ENABLED="1", LANG="C.UTF-8", TZ="UTC")
    return e

class CheckError(Exception):
    pass

def go_build(pkg, out, tmp, overlay=None, race=False):
    """go test -c of a harness package, against /repo's working tree."""
    mod = os.path.join(tmp, "go.mod")
    if not os.path.exists(mod):
        shutil.copy(os.path.join(HARN, "go.mod"), mod)
        shutil.copy(os.path.join(HARN, "go.sum"), os.path.join(tmp, "go.sum"))
    cmd = [GO, "test", "-c", "-vet=off", "-mod=mod", "-modfile=" + mod, "-o", out]
    if overlay: cmd += ["-overlay", overlay]
    if race: cmd.append("-race")
    r = subprocess.run(cmd + ["./" + pkg], cwd=HARN, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0 and os.path.exists(out), r.stdout

def instrument(tmp):
    """An instrumented copy of the current sources, as an overlay; None if that fails."""
    tool = os.path.join(tmp, "instr")
    mod = os.path.join(tmp, "go.mod")
    if not os.path.exists(mod):
        shutil.copy(os.path.join(HARN, "go.mod"), mod)
        shutil.copy(os.path.join(HARN, "go.sum"), os.path.join(tmp, "go.sum"))
    r = subprocess.run([GO, "build", "-mod=mod", "-modfile=" + mod, "-o", tool, "./cmd/instr"], cwd=HARN, env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise CheckError("building the instrumenter: " + r.stdout)
    out = os.path.join(tmp, "inst"); os.makedirs(out, exist_ok=True)
    goroot = subprocess.run([GO, "env", "GOROOT"], env=goenv(), stdout=subprocess.PIPE, text=True).stdout.strip()
    mc = "/root/go/pkg/mod/"
    cmd = [tool, "-out", out, "-module", HARN, "-list", goroot + "/src/container/list"]
    lru = mc + "github.com/golang/groupcache@v0.0.0-20241129210726-2c02b8208cf8/lru"
    bt = mc + "github.com/google/btree@v1.1.3"
    cmd += ["-lru", lru, "-btree", bt]
    cmd += [os.path.join(REPO, p) for p in INSTR_PKGS if os.path.isdir(os.path.join(REPO, p))]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return None, r.stdout
    return os.path.join(out, "overlay.json"), ""

def mix(seed, salt):
    v = int.from_bytes(hashlib.sha256(("%d/%s" % (seed, salt)).encode()).digest()[:8], "big") >> 2
    return v or 1

def findings():
    """Committed known findings: {key: (property, what)}; 'fixed:' lines suppress nothing."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m: out[m.group(2)] = (m.group(1), m.group(3))
    return out

def run_shard(bin, cwd, env, args, timeout, log, race, mem=None):
    f = open(log, "w")
    mem = mem or MEM
    # the race detector reserves far more than it uses
    limit = None if race else lambda: resource.setrlimit(resource.RLIMIT_DATA, (mem, mem))
    return subprocess.Popen([bin] + args, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=limit), time.time() + timeout, f

MEM = 3584 << 20  # per process; eight run at a time
MEM_AGAIN = 12288 << 20  # for the one that ran out of memory, alone

GOFER = re.compile(r"github\.com/donnie4w/gofer/|/repo/[a-z]+/")

def crash_section(out):
    """The panicking goroutine's part of a crash dump."""
    m = re.search(r"^(panic: |fatal error: |unexpected fault address|SIGSEGV|runtime: )", out, re.M)
    if not m: return None
    rest = out[m.start():]
    if rest.startswith("fatal error: ") or "fatal error:" in rest[:300]:
        return rest[:60000]
    parts = rest.split("\n\n")
    return "\n\n".join(parts[:2])

OOM = "the code under test takes memory without end"

def classify(rc, out):
    """-> (verdict, reason) with verdict in ok / violation / error"""
    if "HARNESS-ERROR" in out:
        return "error", "harness error: " + out[out.index("HARNESS-ERROR"):][:500]
    if rc == 0:
        return "ok", ""
    if rc == 66 and "WARNING: DATA RACE" in out:
        rep = out[out.index("WARNING: DATA RACE"):].split("\n==================")[0]
        accesses = re.split(r"\n\nGoroutine \d+ ", rep)[0]
        if GOFER.search(accesses): return "violation", "two goroutines use the same memory without synchronisation"
        return "error", "a data race outside the code under test: " + rep[:1500]
    if "SIGQUIT: quit" in out and "runtime.doInit" in out and GOFER.search(out):
        return "violation", "the initialisation of the code under test never finishes"
    if rc == 97:
        if GOFER.search(out): return "violation", "a case never finished (goroutines are stuck or spinning in the code under test)"
        return "error", "a case never finished, outside the code under test"
    if re.search(r"^--- FAIL: |^    --- FAIL: ", out, re.M) and rc == 1:
        return "violation", "a generated case failed"
    cs = crash_section(out)
    if cs is not None:
        if re.search(r"out of memory|cannot allocate memory", cs):
            # seen again alone under a limit far above what any case needs
            if GOFER.search(cs): return "violation", OOM
            return "error", "out of memory"
        if GOFER.search(cs): return "violation", "the process crashed in the code under test"
        if re.search(r"^--- FAIL: ", out, re.M): return "violation", "a generated case failed"
        return "error", "crash outside the code under test: " + cs[:800]
    return "error", "exit %s: %s" % (rc, out[-800:])

def run_check(pid, tier, seed):
    t0 = time.time()
    cfg = CHECKS[pid]
    tmp = os.path.join(WORK, "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    rep_dir = os.path.join(WORK, "replay"); os.makedirs(rep_dir, exist_ok=True)
    known = findings()
    verdicts, stats, notes, found = [], [], [], set()
    jobs = []
    overlay = None; overlay_err = None
    try:
        for pi, part in enumerate(cfg["parts"]):
            ov = None
            if part.get("instr"):
                if overlay is None and overlay_err is None:
                    overlay, overlay_err = instrument(tmp)
                ov = overlay
            bin = os.path.join(tmp, "part%d.test" % pi)
            ok, msg = go_build(part["pkg"], bin, tmp, overlay=ov, race=part.get("race", False))
            if not ok and ov:
                notes.append("the instrumented build failed; schedules were explored on the plain build: " + msg[-300:])
                ov = None
                ok, msg = go_build(part["pkg"], bin, tmp, race=part.get("race", False))
            if part.get("instr") and overlay is None and overlay_err:
                notes.append("instrumentation failed: " + overlay_err[-300:])
            if not ok:
                raise CheckError("building %s: %s" % (part["pkg"], msg[-3000:]))
            n = part.get("shards", {}).get(tier, 1 if tier == "quick" else 4)
            for i in range(n):
                d = os.path.join(tmp, "p%d_s%d" % (pi, i)); os.makedirs(d)
                env = goenv()
                env.pop("GOFLAGS", None)
                env.update({"VERIF_TIER": tier, "H_SEED": str(mix(seed, "%s/%s/%d" % (pid, part.get("name", pi), i))),
                            "H_STATS": os.path.join(d, "stats.json"), "H_SHARD": str(i), "H_SHARDS": str(n),
                            "H_SCRATCH": os.path.join(d, "scratch"), "H_INSTR": "1" if ov else "0", "TMPDIR": os.path.join(d, "scratch"),
                            "GOTRACEBACK": "all", "GOMEMLIMIT": "3GiB", "GORACE": "halt_on_error=1 exitcode=66 history_size=3"})
                os.makedirs(env["H_SCRATCH"])
                if part.get("gomaxprocs"):
                    env["GOMAXPROCS"] = str(part["gomaxprocs"])
                    if part["gomaxprocs"] == 1: env["GODEBUG"] = "asyncpreemptoff=1"
                env.update(part.get("env", {}))
                if (tier == "quick" or part.get("race")) and "H_SCALE" not in os.environ: env["H_SCALE"] = str(part.get("scale", 100))
                args = ["-test.timeout=0", "-test.count=1", "-rapid.shrinktime=%s" % ("15s" if tier == "quick" else "40s")]
                if part.get("run"): args.append("-test.run=" + part["run"])
                jobs.append({"part": part, "pi": pi, "i": i, "bin": bin, "d": d, "env": env, "args": args, "log": os.path.join(d, "log"), "instr": bool(ov)})
        limit = 560 if tier == "quick" else 2400
        width = 8
        pending, running, done = list(jobs), [], []
        failed = False
        while pending or running:
            # one that ran out of memory is run again, alone, with more of it
            while pending and len(running) < width and not failed and not (running and (pending[0].get("again") or running[0].get("again"))):
                j = pending.pop(0)
                j["p"], j["deadline"], j["f"] = run_shard(j["bin"], j["d"], j["env"], j["args"], 250 if j.get("again") else limit, j["log"], j["part"].get("race"), j.get("again"))
                j["start"] = time.time()
                running.append(j)
            if failed and pending: pending = []
            time.sleep(0.02)
            for j in list(running):
                rc = j["p"].poll()
                if rc is None and not j.get("up"):
                    j["up"] = os.path.exists(os.path.join(j["d"], "stats.json.up"))
                    if not j["up"] and time.time() - j["start"] > 200: # stuck before the first test
                        j["up"] = True
                        j["p"].send_signal(signal.SIGQUIT)
                if rc is None and time.time() > j["deadline"]:
                    os.killpg(j["p"].pid, signal.SIGKILL); j["p"].wait(); rc = "timeout"
                if rc is None: continue
                try: os.killpg(j["p"].pid, signal.SIGKILL)
                except ProcessLookupError: pass
                j["f"].close(); running.remove(j)
                out = open(j["log"], errors="replace").read()
                j["out"] = out
                if rc == "timeout": v = ("error", "time limit")
                else: v = classify(rc, out)
                if v[1] in (OOM, "out of memory") and not j.get("again"):
                    j["again"] = MEM_AGAIN
                    j["env"]["GOMEMLIMIT"] = "8GiB"
                    shutil.rmtree(os.path.join(j["d"], "testdata"), ignore_errors=True)
                    for f in ("stats.json", "stats.json.up"):
                        if os.path.exists(os.path.join(j["d"], f)): os.remove(os.path.join(j["d"], f))
                    pending.append(j)
                    continue
                done.append(j)
                for m in re.finditer(r"^FINDING key=(\S+) (.*)$", out, re.M):
                    found.add((m.group(1), m.group(2)))
                j["verdict"] = v
                if v[0] == "violation":
                    failed = True
                    for o in running: o["deadline"] = min(o["deadline"], time.time() + 30)
                sp = os.path.join(j["d"], "stats.json")
                if os.path.exists(sp):
                    for s in json.load(open(sp)): stats.append((j, s))
        viol = [j for j in done if j["verdict"][0] == "violation"]
        errs = [j for j in done if j["verdict"][0] == "error"]
        lines = []
        nviol = 0
        for j in viol[:1]:
            nviol += 1
            path = write_replay(rep_dir, pid, tier, seed, j)
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            print(brief(j["out"]))
        if not viol:
            for key, what in sorted(found):
                if key in known and known[key][0] == pid:
                    print("KNOWN-FINDING: property=%s %s" % (pid, known[key][1]))
                else:
                    nviol += 1
                    path = os.path.join(rep_dir, "%s-%s.txt" % (pid, key))
                    open(path, "w").write("unlisted finding %s: %s\n" % (key, what))
                    lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        evidence(pid, tier, seed, cfg, stats, notes, nviol, time.time() - t0)
        for l in lines: print(l)
        if lines: return 1
        if errs:
            for j in errs: print("ERROR %s: %s" % (pid, j["verdict"][1]), file=sys.stderr)
            return 3
        tot = sum(s["evaluations"] for _, s in stats)
        print("%s: held on %d generated cases (%.1fs)" % (pid, tot, time.time() - t0))
        return 0
    except CheckError as e:
        print("ERROR %s: %s" % (pid, e), file=sys.stderr)
        return 3
    finally:
        for j in jobs:
            if "p" in j and j["p"].poll() is None:
                try: os.killpg(j["p"].pid, signal.SIGKILL)
                except ProcessLookupError: pass
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(tmp, ignore_errors=True)

def brief(out):
    m = re.search(r"^(--- FAIL|HANG|panic:|fatal error:|WARNING: DATA RACE)", out, re.M)
    return out[m.start():][:4000] if m else out[-3000:]

def write_replay(rep_dir, pid, tier, seed, j):
    """The shrunk failing case: seed, how to run it again, rapid's recorded draws, and the output."""
    rec = {"property": pid, "tier": tier, "verif_seed": seed, "part": j["pi"], "shard": j["i"], "args": j["args"],
           "env": {k: v for k, v in j["env"].items() if k.startswith(("H_", "VERIF_", "GOMAXPROCS", "GODEBUG")) and k not in ("H_STATS", "H_SCRATCH")},
           "reason": j["verdict"][1], "failfiles": {}}
    td = os.path.join(j["d"], "testdata", "rapid")
    for root, _, fs in os.walk(td):
        for f in fs:
            rec["failfiles"][os.path.relpath(os.path.join(root, f), j["d"])] = open(os.path.join(root, f), errors="replace").read()[:200000]
    rec["output"] = brief(j["out"])[:20000]
    path = os.path.join(rep_dir, "%s-%s-%d-%d.json" % (pid, tier, seed, int(time.time() * 1000)))
    json.dump(rec, open(path, "w"), indent=1)
    return path

def replay(path):
    rec = json.load(open(path))
    pid, part = rec["property"], CHECKS[rec["property"]]["parts"][rec["part"]]
    tmp = os.path.join(WORK, "replay-%d" % os.getpid()); os.makedirs(tmp)
    try:
        ov = instrument(tmp)[0] if rec["env"].get("H_INSTR") == "1" else None
        bin = os.path.join(tmp, "t")
        ok, msg = go_build(part["pkg"], bin, tmp, overlay=ov, race=part.get("race", False))
        if not ok: print(msg); return 3
        for f, body in rec["failfiles"].items():
            os.makedirs(os.path.dirname(os.path.join(tmp, f)), exist_ok=True)
            open(os.path.join(tmp, f), "w").write(body)
        env = goenv(); env.update(rec["env"]); env["H_SCRATCH"] = env["TMPDIR"] = os.path.join(tmp, "scratch"); os.makedirs(env["H_SCRATCH"])
        p = subprocess.run([bin] + rec["args"], cwd=tmp, env=env)
        return 1 if p.returncode else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def evidence(pid, tier, seed, cfg, stats, notes, nviol, wall):
    ev = sum(s["evaluations"] for _, s in stats)
    hashes = set()
    samples, subs, seen = [], {}, set()
    for j, s in stats:
        hs = s.get("hashes") or []
        hashes.update((s["name"], x) for x in hs)
        e = subs.setdefault(s["name"], {"evaluations": 0, "nontrivial": 0, "labels": {}, "cut_short": 0, "instrumented": j["instr"]})
        e["evaluations"] += s["evaluations"]; e["nontrivial"] += s["nontrivial"]; e["cut_short"] += s.get("cut_short", 0)
        for k, v in (s.get("labels") or {}).items(): e["labels"][k] = e["labels"].get(k, 0) + v
        if s["name"] not in seen or len(samples) < 6:
            for x in (s.get("samples") or [])[:2]:
                if len(samples) < 24: samples.append({"check": s["name"], "case": x})
            seen.add(s["name"])
    for e in subs.values():
        if len(e["labels"]) > 40: e["labels"] = dict(sorted(e["labels"].items(), key=lambda kv: -kv[1])[:40])
    doc = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
           "coverage": {"evaluations": ev, "distinct_nontrivial": len(hashes), "rule": cfg["rule"], "samples": samples or [{"check": "none", "case": "the run ended before a case was recorded"}],
                        "per_check": subs},
           "wall_s": round(wall, 2), "violations": nviol}
    if notes: doc["assumptions"] = notes
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    b = json.dumps(doc, indent=1)
    if len(b) > 60000:
        for s in samples: s["case"] = s["case"][:120]
        b = json.dumps(doc, indent=1)
    open(p + ".tmp", "w").write(b); os.replace(p + ".tmp", p)

def setup():
    """Warms the build cache: builds every check once, plain and instrumented."""
    tmp = os.path.join(WORK, "setup"); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    rc = 0
    ov, msg = instrument(tmp)
    if ov is None: print("instrumentation failed:", msg); rc = 1
    done = set()
    for pid, cfg in CHECKS.items():
        for part in cfg["parts"]:
            k = (part["pkg"], bool(part.get("instr")), part.get("race"))
            if k in done: continue
            done.add(k)
            ok, msg = go_build(part["pkg"], os.path.join(tmp, "t"), tmp, overlay=ov if part.get("instr") else None, race=part.get("race", False))
            if not ok: print("build of %s failed:\n%s" % (part["pkg"], msg)); rc = 1
    shutil.rmtree(tmp, ignore_errors=True)
    return rc

def main():
    a = sys.argv[1:]
    if a and a[0] == "setup": return setup()
    if a and a[0] == "replay": return replay(a[1])
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    if "--seed" in a: seed = int(a[a.index("--seed") + 1])
    return run_check(pid, tier, seed)

if __name__ == "__main__":
    sys.exit(main())
