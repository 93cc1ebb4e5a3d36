#!/usr/bin/env python3
"""mutants.py OUT.jsonl WORKERS CHECK=file[,file] ... : applies every small change of the files in
scratch copies of /repo and /verif, runs the checks, and records what each change did.
A development aid: it decides no property."""
import json, os, queue, shutil, subprocess, sys, threading
out, workers, specs = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
GO = "/opt/veriftools/go1.27.3/bin/go"
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOENV="off", GOFLAGS="-mod=mod", GOSUMDB="off", GONOSUMDB="*")
base = "/tmp/mutants"
os.makedirs(base, exist_ok=True)
tool = base + "/mutate"
subprocess.run([GO, "build", "-o", tool, "/verif/tools/mutate/main.go"], check=True, env=dict(env, GOFLAGS=""))
todo = queue.Queue()
seen = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); seen.add((d["File"], d["Kind"], str(d["Edits"])))
for s in specs:
    checks, files = s.split("=")
    for f in files.split(","):
        for l in subprocess.run([tool, "/repo/" + f], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
            m = json.loads(l); m["checks"] = checks.split(","); m["rel"] = f
            if (m["File"], m["Kind"], str(m["Edits"])) not in seen: todo.put(m)
print(todo.qsize(), "mutants", flush=True)
lock = threading.Lock()
fo = open(out, "a")
def work(k):
    w = "%s/w%d" % (base, k)
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run("cp -a /repo %s/repo && mkdir %s/verif && cd /verif && cp -a run.py checks_config.py known_findings.txt harness %s/verif/" % (w, w, w), shell=True, check=True)
    subprocess.run("cd %s/verif && sed -i 's#REPO = \"/repo\"#REPO = \"%s/repo\"#; s#/repo/\\[a-z\\]#repo/[a-z]#' run.py && sed -i 's#=> /repo#=> %s/repo#' harness/go.mod" % (w, w, w), shell=True, check=True)
    while True:
        try: m = todo.get_nowait()
        except queue.Empty: return
        p = w + "/repo/" + m["rel"]
        src = open(p, "rb").read()
        b = src
        for e in sorted(m["Edits"], key=lambda e: -e["From"]):
            b = b[:e["From"]] + e["Text"].encode() + b[e["To"]:]
        open(p, "wb").write(b)
        res = "survived"; took = {}
        for c in m["checks"]:
            r = subprocess.run("timeout 400 python3 run.py %s" % c, shell=True, cwd=w + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED="1"))
            if r.returncode == 1: res = "killed " + c; break
            if "[build failed]" in r.stdout or "building checks" in r.stdout or "# github.com/donnie4w" in r.stdout: res = "nobuild"; break
            if r.returncode: res = "error %s: %s" % (c, r.stdout[-300:])
        m["result"] = res
        with lock:
            fo.write(json.dumps(m) + "\n"); fo.flush()
        open(p, "wb").write(src)
ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(base, ignore_errors=True)
