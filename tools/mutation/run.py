#!/usr/bin/env python3
"""run.py OUT.jsonl GROUP...: mutation testing of the checks (development tool, no check uses it).

Every mutant of the group's files that compiles and passes the stable tests is shown to the
group's checks, in order, until one reports a violation. Survivors are for reviewing by hand."""
import json, os, random, shutil, subprocess, sys, threading, queue
from pathlib import Path

VERIF = Path(__file__).resolve().parents[2]
HERE = Path(__file__).resolve().parent
GROUPS = json.loads((HERE / "groups.json").read_text())
LANES = int(os.environ.get("LANES", 4))
SAMPLE = float(os.environ.get("SAMPLE", 1))
SCALE = os.environ.get("VERIF_SCALE", "0.5")
STABLE = "./http/coding ./http/encryption ./http/method ./http/mime ./http/status ./internal/address ./internal/stash ./internal/strlenmap ./internal/tcp ./internal/tcp/dummy ./internal/types ./internal/uridecode ./router/inbuilt/uri ./router/virtual/internal/domain".split()

out = Path(sys.argv[1])
done = set()
if out.exists():
    for l in out.read_text().splitlines():
        r = json.loads(l)
        done.add((r["file"], r["From"], r["To"], r["New"]))
subprocess.run(["go", "build", "-o", "/tmp/mutgen", "mutgen.go"], cwd=HERE, check=True, env=dict(os.environ, GO111MODULE="off"))
jobs = queue.Queue()
rnd = random.Random(7)
for g in sys.argv[2:]:
    spec = GROUPS[g]
    txt = subprocess.run(["/tmp/mutgen"] + spec["files"], cwd="/repo", check=True, capture_output=True, text=True).stdout
    for l in txt.splitlines():
        m = json.loads(l)
        if (m["file"], m["From"], m["To"], m["New"]) in done or rnd.random() > SAMPLE:
            continue
        m["checks"] = spec["checks"]
        jobs.put(m)
print("mutants:", jobs.qsize(), flush=True)
lock = threading.Lock()
stat = {}


def lane(k):
    wt = Path("/tmp/mut/lane%d" % k)
    shutil.rmtree(wt, ignore_errors=True)
    wt.parent.mkdir(exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", str(wt)], check=True)
    env = dict(os.environ, VERIF_REPO=str(wt), VERIF_WORKERS="2", VERIF_SCALE=SCALE, VERIF_NO_EVIDENCE="1",
               GOFLAGS="-mod=mod", GOPROXY="off", GONOSUMDB="*", GOTOOLCHAIN="local")
    while True:
        try:
            m = jobs.get_nowait()
        except queue.Empty:
            return
        f = wt / m["file"]
        orig = f.read_bytes()
        f.write_bytes(orig[:m["From"]] + m["New"].encode() + orig[m["To"]:])
        try:
            res = judge(m, wt, env)
        finally:
            f.write_bytes(orig)
        m["result"] = res
        with lock:
            stat[res.split()[0]] = stat.get(res.split()[0], 0) + 1
            with out.open("a") as o:
                o.write(json.dumps(m) + "\n")
            print(m["file"], m["Line"], m["Op"], repr(m["Old"]), "->", repr(m["New"][:60]), "|", res, stat, flush=True)


def judge(m, wt, env):
    # the packages which cannot be built without the missing modules are built by the checks
    pkg = "./" + str(Path(m["file"]).parent)
    for c in m["checks"]:
        try:
            p = subprocess.run([str(VERIF / "bin/check"), c], env=env, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            return "timeout " + c
        if p.returncode == 2 and "BUILD FAILED" in p.stdout:
            return "nocompile"
        if p.returncode == 1:
            if pkg in STABLE:
                t = subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout=60s", pkg], cwd=wt, env=env, capture_output=True, text=True)
                if t.returncode:
                    return "testkilled " + c
            return "killed " + c
        if p.returncode != 0:
            return "undecided %s rc=%d" % (c, p.returncode)
    if pkg in STABLE:
        t = subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout=60s", pkg], cwd=wt, env=env, capture_output=True, text=True)
        if t.returncode:
            return "testkilled-only"
    return "SURVIVED"


ts = [threading.Thread(target=lane, args=(k,)) for k in range(LANES)]
[t.start() for t in ts]
[t.join() for t in ts]
shutil.rmtree("/tmp/mut", ignore_errors=True)
