#!/usr/bin/env python3
"""Measure what the checks notice: apply single-point changes to a copy of /repo, one at a time, and run the checks
that concern the changed file against the copy.  Development tool: no registered command uses it.
usage: mutate.py OUT.ndjson WORKERS FILE... (paths relative to /repo)"""
import json, os, re, subprocess, sys, threading, queue, shutil, random
SPN = ["C01", "C02", "C03", "C04", "C05", "C07"]
MAP = [
    (r"spn/storer", ["C06"] + SPN), (r"spn/(gaussian|indicator|multinom)", ["C22", "C01", "C02", "C05", "C04", "C27", "C14"]),
    (r"spn/print", ["C27"]), (r"spn/serial", ["C05"]), (r"spn/(topo|search)", ["C03", "C01"]), (r"spn/", SPN + ["C06", "C22", "C08", "C10", "C14"]),
    (r"learn/dennis|learn/poon", ["C16"]), (r"learn/gens", ["C15"]), (r"learn/parameters", ["C14", "C08"]), (r"learn/variable", ["C19", "C15"]),
    (r"learn/discriminative", ["C09", "C08"]), (r"learn/generative", ["C08", "C10"]), (r"learn/derive", ["C07", "C08", "C09", "C10"]), (r"learn/", ["C14", "C19", "C08"]),
    (r"common/color", ["C26"]), (r"common/equal", ["C25", "C24"]), (r"common/", ["C11", "C03"]), (r"conc/", ["C12"]), (r"sys/", ["C26"]),
    (r"data/datasets", ["C28"]), (r"data/", ["C19"]), (r"io/npy", ["C23"]), (r"io/(pbm|pgm|ppm|images)", ["C21", "C24"]), (r"io/(input|arff)", ["C20"]),
    (r"io/spn", ["C05"]), (r"io/output", ["C27"]), (r"io/http", ["C28"]), (r"app/", ["C29"]), (r"score/", ["C13"]),
    (r"utils/cluster", ["C17", "C15"]), (r"utils/indep", ["C18", "C15"]), (r"utils/(log|stats)", ["C25", "C01"]), (r"utils/unionfind", ["C18", "C17", "C11"]), (r"utils/", ["C25"]),
]
TESTS = "^(TestDerive|TestGenerativeGD|TestSimpleSPN|TestEncoding|TestPrint|TestStoreInference|TestStoreMAP|TestTopSort.*)$"
out, nw = sys.argv[1], int(sys.argv[2])
files = sys.argv[3:]
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local", GO111MODULE="on")
sys.path.insert(0, "/verif")
from checks import CHECKS
os.makedirs("/tmp/mw/mc", exist_ok=True)
subprocess.run(["go", "build", "-o", "/tmp/mw/mutants", "/verif/tools/mutate/mutants.go"], check=True, env=dict(ENV, GO111MODULE="off"))
muts = [json.loads(x) for x in subprocess.run(["/tmp/mw/mutants"] + files, cwd="/repo", capture_output=True, text=True, check=True).stdout.splitlines()]
done = set()
if os.path.exists(out):
    for ln in open(out):
        r = json.loads(ln); done.add((r["file"], r["beg"], r["end"], r["new"]))
muts = [m for m in muts if (m["file"], m["beg"], m["end"], m["new"]) not in done]
only = os.environ.get("SAMPLE")
if only:
    random.seed(7); random.shuffle(muts); muts = muts[:int(only)]
q = queue.Queue()
for m in muts: q.put(m)
lock = threading.Lock()
f = open(out, "a")

def prep(w):
    d = "/tmp/mw/%s-%d" % (os.path.basename(out), w)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s --one-top-level=repo" % d, shell=True, check=True)
    subprocess.run("cp -r /verif/harness /verif/spec /verif/run.py /verif/checks.py %s" % d, shell=True, check=True)
    p = d + "/harness/go.mod"; s = open(p).read().replace("=> /repo", "=> %s/repo" % d); open(p, "w").write(s)
    p = d + "/harness/main.go"; s = open(p).read().replace("60 * time.Second", "12 * time.Second"); open(p, "w").write(s)
    p = d + "/run.py"; s = open(p).read()
    s = s.replace("def model_check(mc, scratch):", '''import pickle
def model_check(mc, scratch):
    k = "/tmp/mw/mc/%s-%s" % (mc["module"], mc["cfg"])
    if not os.path.exists(k):
        r = model_check0(mc, scratch)
        pickle.dump(r, open(k + ".%d" % os.getpid(), "wb")); os.rename(k + ".%d" % os.getpid(), k)
    return pickle.load(open(k, "rb"))
def model_check0(mc, scratch):''')
    s = s.replace("700", "150").replace('["-race"] if race', '["-race"] if race')
    s = s.replace("    cmd = [drv,", '    cmd = ([] if drv.endswith("race") else ["prlimit", "--as=6000000000"]) + [drv,')
    open(p, "w").write(s)
    return d

def work(w):
    d = prep(w)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        p = d + "/repo/" + m["file"]
        src = open(p, "rb").read()
        open(p, "wb").write(src[:m["beg"]] + m["new"].encode() + src[m["end"]:])
        r = dict(m)
        try:
            b = subprocess.run(["go", "build", "./" + os.path.dirname(m["file"])], cwd=d + "/repo", env=ENV, capture_output=True, text=True)
            if b.returncode != 0: r["res"] = "nobuild"
            else:
                r["res"] = "SURVIVED"; r["by"] = []
                cs = next(c for pat, c in MAP if re.match(pat, m["file"]))
                for c in cs:
                    if c not in CHECKS: continue
                    x = subprocess.run(["python3", d + "/run.py", c], cwd=d, env=dict(ENV, VERIF_SEED="1"), capture_output=True, text=True)
                    r["by"].append([c, x.returncode])
                    if x.returncode == 1: r["res"] = "killed"; break
                    if x.returncode == 2: r["note"] = x.stdout[-300:]
                if r["res"] == "SURVIVED":
                    t = subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "60s", "-run", TESTS, "./spn", "./learn/..."], cwd=d + "/repo", env=ENV, capture_output=True, text=True)
                    if t.returncode != 0: r["res"] = "tests"
        finally:
            open(p, "wb").write(src)
        with lock:
            f.write(json.dumps(r) + "\n"); f.flush()

ts = [threading.Thread(target=work, args=(i,)) for i in range(nw)]
for t in ts: t.start()
for t in ts: t.join()
for i in range(nw): shutil.rmtree("/tmp/mw/%s-%d" % (os.path.basename(out), i), ignore_errors=True)
