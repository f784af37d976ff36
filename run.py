#!/usr/bin/env python3
"""Decide one property: run.py <ID> [quick|thorough]

1. build the driver from /repo's working tree;
2. model-check the specification (exhaustively, small constants) and let TLC write the behaviours
   to replay;
3. run the driver: it drives the real code and records a trace;
4. let TLC validate the traces against the specification.

exit 0: every recorded behaviour is one the specification allows.
exit 1: VIOLATION line; the real code did something the specification does not allow.
exit 2: the check itself failed (build, specification, driver, resources).
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(HERE, "spec")


class CheckError(Exception):
    pass


def goenv():
    env = dict(os.environ)
    env.update(HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
               GOENV="off", GO111MODULE="on", GOTOOLCHAIN="local", GOWORK="off", GOPROXY="off",
               GOFLAGS="-mod=readonly")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env["PATH"]
    return env


def build(scratch, race=False):
    out = os.path.join(scratch, "drv-race" if race else "drv")
    cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
    p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=goenv(), capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("cannot build the driver from /repo:\n" + p.stdout + p.stderr)
    return out


def build_cli(scratch):
    """the program itself"""
    out = os.path.join(scratch, "gospn")
    p = subprocess.run(["go", "build", "-race", "-o", out, "github.com/RenatoGeh/gospn"], cwd=os.path.join(HERE, "harness"),
                       env=goenv(), capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("cannot build the program from /repo:\n" + p.stdout + p.stderr)
    return out


def tlc(module, cfg, scratch, env=None, args=(), workers="1", timeout=800, heap="3g"):
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xss512m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", workers, "-metadir", meta,
           "-config", os.path.join(SPEC, cfg), *args, os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s (%s)" % (module, cfg))
    out = p.stdout + p.stderr
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "").replace("generated", "generated,"))
    gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return {"rc": p.returncode, "out": out, "states": dis, "transitions": gen, "wall": time.time() - t0}


def model_check(mc, scratch):
    r = tlc(mc["module"], mc["cfg"], scratch, workers=str(mc.get("workers", 4)), args=mc.get("args", ()),
            timeout=mc.get("timeout", 800), heap=mc.get("heap", "4g"))
    if r["rc"] != 0 or "No error has been found" not in r["out"]:
        if not (mc.get("simulate") and r["rc"] == 0):
            raise CheckError("model checking %s/%s failed:\n%s" % (mc["module"], mc["cfg"], r["out"][-3000:]))
    if mc.get("emit"):  # behaviours printed by the specification, one JSON per line
        lines = []
        for ln in r["out"].splitlines():
            if ln.startswith('"@@'):
                lines.append(json.loads(ln)[2:])
        r["emitted"] = lines
    return r


def watch(p, full, limit=8000):
    """a driver needs a few hundred MB: stop one that takes all there is"""
    while p.poll() is None:
        try:
            m = re.search(r"VmRSS:\s+(\d+) kB", open("/proc/%d/status" % p.pid).read())
        except OSError:
            return
        if m and int(m.group(1)) // 1024 > limit:
            full.append(int(m.group(1)) // 1024)
            p.send_signal(signal.SIGQUIT)
            time.sleep(20)
            p.kill()
            return
        time.sleep(0.3)


def roomy():
    """is there memory enough for others, now that the driver is gone?"""
    m = re.search(r"MemAvailable:\s+(\d+) kB", open("/proc/meminfo").read())
    return bool(m) and int(m.group(1)) > 8000000


def drive(drv, pid, seed, tier, scratch, shard, infile, timeout):
    d = os.path.join(scratch, "work%d" % shard)
    os.makedirs(d)
    trace = os.path.join(scratch, "trace%d.ndjson" % shard)
    stats = os.path.join(scratch, "stats%d.json" % shard)
    cmd = [drv, "-id", pid, "-seed", str(seed), "-tier", tier, "-out", trace, "-stats", stats, "-dir", d]
    if infile:
        cmd += ["-in", infile]
    env = goenv()
    env["GORACE"] = "halt_on_error=1 exitcode=66 atexit_sleep_ms=0"
    env["TMPDIR"] = d
    p = subprocess.Popen(cmd, cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    hung, full = False, []
    threading.Thread(target=watch, args=(p, full), daemon=True).start()
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        # a driver takes seconds; where does it stand?
        hung = True
        p.send_signal(signal.SIGQUIT)
        try:
            _, err = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
    died = ""
    if p.returncode != 0 or hung or full:
        # a race the driver sees only from its own side (after a Wait that did not wait, or inside a sync type
        # the code uses) names no frame of the code; the driver has none of its own. A panic of the driver's own is
        # one at an answer it could not make sense of, unless the machine is to blame.
        real = not re.search(r"no space left|too many open files|input/output error|read-only file system", err)
        if hung:
            died = "hang: a driver that takes seconds was still running after %d s" % timeout
        elif full:
            died = "memory: %d MB" % full[0]
        elif p.returncode == 66 and "DATA RACE" in err:
            died = "data race"
        elif p.returncode == 2 and real and re.search(
                r"^(panic:|fatal error:|runtime: goroutine stack exceeds)", err, re.M) and (not re.search(
                r"^(fatal error|runtime): .*(out of memory|cannot allocate|failed to create new OS thread)", err, re.M) or roomy()):
            died = "crash"
        else:
            raise CheckError("driver failed (rc %d):\n%s" % (p.returncode, err[-4000:]))
        # the trace ends with the crash: no specification has such a step
        tail = "\n".join(err.strip().splitlines()[:60])
        fix_tail(trace)
        with open(trace, "a") as f:
            f.write(json.dumps({"op": "died", "err": died, "stderr": tail}) + "\n")
    st = {}
    if os.path.exists(stats):
        st = json.load(open(stats))
    shutil.rmtree(d, ignore_errors=True)
    return trace, st, died


def fix_tail(trace):
    """drop a half-written last line"""
    b = open(trace, "rb").read()
    if b and not b.endswith(b"\n"):
        b = b[:b.rfind(b"\n") + 1]
        open(trace, "wb").write(b)


def validate(module, cfg, trace, scratch, timeout, heap="3g"):
    n = sum(1 for _ in open(trace))
    if n == 0:
        raise CheckError("empty trace")
    r = tlc(module, cfg, scratch, env={"TRACE": trace}, timeout=timeout, heap=heap)
    out = r["out"]
    m = re.search(r'<<"TRACE_ACCEPTED", (\d+)>>', out)
    if m and r["rc"] == 0 and int(m.group(1)) == n:
        return r, None, None
    m = re.search(r'<<"TRACE_REJECTED", (\d+)>>', out)
    if m:
        return r, int(m.group(1)), "the specification has no such step"
    if "OutOfMemory" in out or "StackOverflow" in out:
        raise CheckError("TLC ran out of memory:\n" + "\n".join(x for x in out.splitlines() if "rror" in x or "xception" in x)[:2000] + out[-2000:])
    m = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
    if m and ("Error: Invariant" in out or "The behavior up to this point is" in out):
        why = [x for x in out.splitlines() if x.startswith("Error:")]
        idx = int(m[-1])
        if "Error: Invariant" in out:
            idx = max(1, idx - 1)
        return r, idx, "; ".join(why)[:600]
    raise CheckError("TLC failed on the trace:\n" + out[-3000:])


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    rc = 2
    try:
        rc = check(pid, c, tier, seed, scratch, t0)
    except CheckError as e:
        print("CHECK ERROR property=%s: %s" % (pid, e))
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def check(pid, c, tier, seed, scratch, t0):
    thorough = tier == "thorough"
    race = c.get("race", False)
    drv = build(scratch, race)
    if c.get("cli"):
        os.environ["VERIF_CLI"] = build_cli(scratch)
    limit = 6000 if thorough else 700
    mcs, infile, emitted = [], None, 0
    lines = []
    jobs = [m for m in c.get("mc", []) if m.get("tier", tier) == tier]
    with ThreadPoolExecutor(max_workers=3) as ex:
        for m, r in zip(jobs, ex.map(lambda m: model_check(dict(m, timeout=limit), scratch), jobs)):
            mcs.append((m, r))
            lines += r.get("emitted", [])
    if any(m.get("emit") for m in jobs):
        if not lines:
            raise CheckError("the specification emitted no behaviour to replay")
        lines = list(dict.fromkeys(lines))
        emitted = len(lines)
    shards = c.get("shards", (2, 8))[1 if thorough else 0]
    if lines:
        for i in range(shards):
            with open(os.path.join(scratch, "in%d.ndjson" % i), "w") as f:
                f.write("\n".join(lines[i::shards]) + "\n")

    def one(i):
        f = os.path.join(scratch, "in%d.ndjson" % i) if lines else None
        trace, st, died = drive(drv, pid, seed * 1000 + i, tier, scratch, i, f, 3000 if thorough else 300)
        r, at, why = validate(c["trace"], c["trace"] + ".cfg", trace, scratch, limit)
        return i, trace, st, r, at, why

    with ThreadPoolExecutor(max_workers=8) as ex:
        results = list(ex.map(one, range(shards)))

    viol = []
    for i, trace, st, r, at, why in results:
        if at is not None:
            viol.append(save_replay(pid, seed, tier, i, trace, at, why))
    kinds, samples = {}, []
    for _, _, st, _, _, _ in results:
        for k, v in st.get("kinds", {}).items():
            kinds[k] = kinds.get(k, 0) + v
        samples += (st.get("samples") or [])[:2]
    cov = {
        "states": sum(r["states"] for _, r in mcs) + sum(x[3]["states"] for x in results),
        "transitions": sum(r["transitions"] for _, r in mcs) + sum(x[3]["transitions"] for x in results),
        "traces_validated_against_impl": sum(st.get("cases", 0) for _, _, st, _, _, _ in results),
        "events_validated": sum(st.get("events", 0) for _, _, st, _, _, _ in results),
        "distinct_cases": sum(st.get("distinct", 0) for _, _, st, _, _, _ in results),
        "behaviours_emitted_by_spec": emitted,
        "behaviours_replayed_from_spec": sum(v for k, v in kinds.items() if "enumerated by TLC" in k),
        "by_kind": kinds,
        "models": [{"module": m["module"], "cfg": m["cfg"], "states": r["states"], "transitions": r["transitions"]} for m, r in mcs],
        "samples": samples[:3] or ["no case"],
    }
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "model_checking",
          "coverage": cov, "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        for path, text in viol:
            print(text)
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("OK property=%s tier=%s seed=%d %s wall=%.1fs" % (pid, tier, seed, json.dumps({k: cov[k] for k in (
        "states", "traces_validated_against_impl", "events_validated", "behaviours_replayed_from_spec")}), time.time() - t0))
    return 0


def save_replay(pid, seed, tier, shard, trace, at, why):
    evs = open(trace).read().splitlines()
    at = min(at, len(evs))
    start = at - 1
    while start > 0 and at - start < 60:
        op = json.loads(evs[start]).get("op")
        if op in ("build", "image", "new", "case"):
            break
        start -= 1
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%d-%s-%d.json" % (pid, seed, tier, shard))
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": seed, "tier": tier, "shard": shard, "rejected_event": at, "why": why,
                   "rerun": "VERIF_SEED=%d python3 run.py %s %s" % (seed, pid, tier),
                   "events": [json.loads(x) for x in evs[start:at]]}, f, indent=1)
    return path, "rejected event %d of %s: %s\n  %s" % (at, os.path.basename(trace), evs[at - 1][:700], why)


if __name__ == "__main__":
    main()
