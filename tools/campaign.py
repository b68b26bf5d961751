#!/usr/bin/env python3
"""campaign.py OUT FILE...: makes every small change that tools/mutate lists for the
files (relative to the repository), in scratch copies. For those that compile and
pass the repository's tests it runs the checks concerned until one finds a
violation, and appends the outcome to OUT."""
import json, os, re, subprocess, sys, shutil, threading, queue
OUT, FILES = sys.argv[1], sys.argv[2:]
WORK = os.environ.get("CAMPAIGN_DIR", "/tmp/campaign")
N = int(os.environ.get("CAMPAIGN_JOBS", "4"))
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", VERIF_TIER="quick", VERIF_SEED="1")
MATCH = "C19 C13 C12 C18 C10 C16 C17 C35 C22 C15 C20 C24 C28 C14 C21 C11 C23"
PARSE = "C04 C06 C02 C05 C07 C08 C01 C03 C35 C09 C34 C32"
def checks(f):
    for pre, cs in [("aqlgraph/", "C30 C31"), ("cmd/", "C31"), ("jsonmatcher/query_messages", "C24 C31"), ("jsonmatcher/", MATCH),
                    ("parser/ast", PARSE + " C30 C10 C22"), ("parser/fmtmsg", "C29 C31"), ("parser/message", "C35 C29 C24 C31 C32"), ("parser/visitors", "C07 C24 C05 C32 C29"),
                    ("parser/validators", "C05 C24 C01 C32"), ("parser/parser", PARSE), ("sampler/", "C26 C28 C25 C27 C31"),
                    ("wasm/aqlparse/server", "C33"), ("wasm/", "C32"), ("internal/", PARSE)]:
        if f.startswith(pre):
            return cs.split()
os.makedirs(WORK, exist_ok=True)
subprocess.run(["go", "build", "-o", WORK + "/mutate", "/verif/tools/mutate/main.go"], env=ENV, check=True)
lines = subprocess.run([WORK + "/mutate"] + FILES, cwd="/repo", capture_output=True, text=True, check=True).stdout.splitlines()
done = set()
if os.path.exists(OUT):
    done = {json.dumps(json.loads(l)["m"], sort_keys=True) for l in open(OUT)}
lo, hi = [int(x) for x in os.environ.get("CAMPAIGN_LINES", "0-999999").split("-")]
muts = [m for m in map(json.loads, lines) if json.dumps(m, sort_keys=True) not in done and lo <= m["Line"] <= hi]
q = queue.Queue()
for m in muts:
    src = open("/repo/" + m["File"]).read().split("\n")[m["Line"] - 1]
    if '"' in m["What"] and re.search(r"Errorf|errors\.New|Hint|Warn|Msg|Message|Println|Fatal", src):
        continue
    q.put(m)
print(q.qsize(), "changes", flush=True)
lock = threading.Lock()
def worker(i):
    d = f"{WORK}/{i}"
    repo, verif = d + "/repo", d + "/verif"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", repo, symlinks=True)
    os.makedirs(verif + "/evidence")
    for x in ("run.sh", "known-findings.txt"):
        shutil.copy("/verif/" + x, verif)
    for x in ("tools", "harness"):
        shutil.copytree("/verif/" + x, verif + "/" + x)
    env = dict(ENV, VERIF_REPO=repo)
    def run(c, t=900):
        try:
            p = subprocess.run(c, shell=True, cwd=repo, env=env, capture_output=True, text=True, timeout=t, errors="replace")
            return p.returncode, p.stdout + p.stderr
        except subprocess.TimeoutExpired:
            return -1, "timeout"
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        p = f"{repo}/{m['File']}"
        old = open(p, "rb").read()
        open(p, "wb").write(old[:m["Start"]] + m["New"].encode() + old[m["End"]:])
        res, by = "", ""
        if m["File"].startswith("wasm/aqlparse/") and "server" not in m["File"]:
            rc, o = run("GOOS=js GOARCH=wasm go build -o /dev/null ./wasm/aqlparse")
        else:
            rc, o = run("go build $(go list ./... | grep -v /wasm/aqlparse$)")
        if rc:
            res = "no build"
        else:
            rc, o = run('go test -vet=off -count=1 -timeout 60s -exec "/bin/bash /opt/vp/testexec.sh" ./jsonmatcher ./parser ./sampler', 120)
            if rc:
                res = "tests"
        if not res:
            res = "SURVIVED"
            for c in checks(m["File"]):
                rc, o = run(f"bash {verif}/run.sh {c}")
                if rc == 1:
                    w = re.search(r"^case: (.*)$", o, re.M)
                    res, by = "caught", c + " " + (w.group(1)[:120] if w else "")
                    break
                if rc:
                    res, by = "ERROR", f"{c} rc={rc} {o[-300:]}"
                    break
        open(p, "wb").write(old)
        with lock:
            open(OUT, "a").write(json.dumps({"res": res, "by": by, "m": m}) + "\n")
ts = [threading.Thread(target=worker, args=(i,)) for i in range(N)]
[t.start() for t in ts]
[t.join() for t in ts]
for i in range(N):
    shutil.rmtree(f"{WORK}/{i}", ignore_errors=True)
