#!/usr/bin/env python3
"""Decide one property: build the harness against /repo's working tree, run the
property's tests in shards, write the evidence, report.

    run.py C07                     the check (VERIF_SEED, VERIF_TIER from the environment)
    run.py C07 --replay FILE       run a reported counterexample again
    run.py --setup                 build everything once

exit 0: held on everything explored; 1: VIOLATION; 2: no answer (build failure, time out).
"""
import concurrent.futures, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPO = os.environ.get("VP_REPO", "/repo")
RACE = {"C10", "C26", "C29"}
FUZZ = {"C23": ["FuzzC23Parsers", "FuzzC23Demuxer"]}  # coverage-guided, thorough tier only
FUZZ_SECONDS = int(os.environ.get("VP_FUZZ_SECONDS", "240"))
LIMIT = {"quick": 780, "thorough": 6 * 3600}


def say(*a):
    print(*a, flush=True)


def env_for(extra):
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off", GO111MODULE="on")
    e.setdefault("GOCACHE", os.path.join(e["HOME"], ".cache", "go-build"))
    e.pop("GOMAXPROCS", None)
    e.update(extra)
    return e


def go():
    for c in (shutil.which("go"), "/usr/local/go/bin/go", "/usr/lib/go/bin/go"):
        if c and os.path.exists(c):
            return c
    return "go"


def build(work, race):
    """Compile the harness and the code under test into work/h.test."""
    # a copy, so that nothing can rewrite the committed go.mod and go.sum
    src = os.path.join(work, "harness")
    shutil.copytree(HARNESS, src, ignore=shutil.ignore_patterns("testdata"))
    if REPO != "/repo":
        subprocess.run([go(), "mod", "edit", "-replace", "github.com/lkmio/avformat=" + REPO], cwd=src, env=env_for({}), check=True)
    out = os.path.join(work, "h.test")
    cmd = [go(), "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + ["."]
    p = subprocess.run(cmd, cwd=src, env=env_for({"CGO_ENABLED": "1" if race else "0"}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        say("BUILD FAILED\n" + p.stdout[-4000:])
        sys.exit(2)
    return out


def run_shard(binary, work, pattern, shard, shards, extra_env, extra_args, deadline):
    cwd = os.path.join(work, "cwd%d" % shard)
    os.makedirs(cwd, exist_ok=True)
    env = env_for({"VP_SHARD": str(shard), "VP_SHARDS": str(shards), "VP_STATS": os.path.join(work, "stats"), "TMPDIR": cwd,
                   "GORACE": "halt_on_error=0 exitcode=66 history_size=3", "GOTRACEBACK": "all"})
    env.update(extra_env)
    args = [binary, "-test.run", pattern, "-test.timeout", "0", "-test.v", "-rapid.shrinktime", "20s"] + extra_args
    with open(os.path.join(cwd, "out"), "w+b") as f:
        p = subprocess.Popen(args, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            p.wait(timeout=max(1, deadline - time.time()))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = None
        f.seek(0)
        out = f.read().decode("utf-8", "replace")
    return {"shard": shard, "rc": rc, "out": out, "cwd": cwd}


VIOLATED = re.compile(r"\[rapid\] (failed after|panic after|flaky test)|WARNING: DATA RACE|^fatal error: |VP-HANG|VP-MEMORY|VP-VIOLATION", re.M)
BROKEN = re.compile(r"\[rapid\] only generated|VP-HARNESS")


def verdict(r):
    """'ok', 'violation' or 'error' for one shard."""
    out, rc = r["out"], r["rc"]
    if rc is None:
        return "error"
    if rc == 0:
        return "ok" if re.search(r"^--- PASS: ", out, re.M) else "error"
    if VIOLATED.search(out):
        if "WARNING: DATA RACE" in out and not re.search(r"\[rapid\] (failed|panic|flaky)|VP-VIOLATION|^fatal error|" + re.escape(REPO) + "/", out, re.M):
            return "error"  # a race inside the harness only
        return "violation"
    if BROKEN.search(out):
        return "error"
    if re.search(r"^panic: |^SIG\w+: ", out, re.M) and REPO + "/" in out:
        return "violation"
    return "error"


def failed_test(out):
    m = re.search(r"^--- FAIL: (\w+)", out, re.M) or re.search(r"VP-(?:HANG|MEMORY) test=(\w+)", out) or None
    if m:
        return m.group(1)
    runs = re.findall(r"^=== RUN\s+(\w+)", out, re.M)
    return runs[-1] if runs else ""


def excerpt(out):
    lines = [l for l in out.splitlines() if not l.startswith("=== ") and "[rapid] draw" not in l]
    text = "\n".join(l[:600] for l in lines)
    m = VIOLATED.search(text)
    start = max(0, m.start() - 400) if m else max(0, len(text) - 3000)
    return text[start:start + 3500]


def save_replay(pid, tier, seed, shards, r):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    test = failed_test(r["out"])
    fails = sorted(glob.glob(os.path.join(r["cwd"], "testdata", "rapid", test or "*", "*.fail")), key=os.path.getmtime)
    content = None
    if fails:
        with open(fails[-1], errors="replace") as f:
            content = f.read()
    path = os.path.join(d, "%s-%s-%s-%d-%d.json" % (pid, test or "unknown", tier, seed, r["shard"]))
    with open(path, "w") as f:
        json.dump({"property": pid, "test": test, "tier": tier, "seed": seed, "shard": r["shard"], "shards": shards,
                   "failfile": content, "output": excerpt(r["out"])}, f, indent=1)
    return path


def known(pid):
    path = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: ") and re.search(r"property=%s\b" % pid, line):
                    out.append(line[len("finding: "):])
    return out


def merge(work):
    tests = {}
    for p in glob.glob(os.path.join(work, "stats", "*.json")):
        with open(p) as f:
            d = json.load(f)
        t = tests.setdefault(d["test"], {"rule": d["rule"], "evaluations": 0, "hashes": set(), "labels": {}, "samples": []})
        t["evaluations"] += d["evals"]
        t["hashes"].update(d["hashes"] or [])
        for k, v in (d["labels"] or {}).items():
            t["labels"][k] = t["labels"].get(k, 0) + v
        t["samples"] += d["samples"] or []
    return tests


def evidence(pid, tier, seed, tests, fuzz, wall, violations):
    names = sorted(tests)
    cov = {
        "evaluations": sum(t["evaluations"] for t in tests.values()) + sum(f["executions"] for f in fuzz),
        "distinct_nontrivial": sum(len(t["hashes"]) for t in tests.values()),
        "rule": " || ".join("%s: %s" % (n, tests[n]["rule"]) for n in names) or "none",
        "samples": [{"test": n, "case": s} for n in names for s in sorted(tests[n]["samples"], key=len)[-3:]][:14],
        "per_test": {n: {"evaluations": tests[n]["evaluations"], "distinct_nontrivial": len(tests[n]["hashes"]),
                         "labels": dict(sorted(tests[n]["labels"].items(), key=lambda x: -x[1])[:60])} for n in names},
    }
    if fuzz:
        cov["coverage_guided"] = fuzz
    assumptions = ["the reference models and independent writers in /verif/harness state what the property means",
                   "generated cases stay within the sizes and domains DESIGN.md names for " + pid]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": assumptions,
                   "wall_s": round(wall, 1), "violations": violations}, f, indent=1)


def run_fuzz(work, target, seconds):
    """Coverage-guided fuzzing with go test -fuzz, in the copy of the harness."""
    src = os.path.join(work, "harness")
    cmd = [go(), "test", "-vet=off", "-run", "^$", "-fuzz", "^%s$" % target, "-fuzztime", "%ds" % seconds, "-test.fuzzcachedir", os.path.join(work, "fuzzcache"), "."]
    try:
        p = subprocess.run(cmd, cwd=src, env=env_for({"VP_STATS": "", "GOFLAGS": "-mod=mod"}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=seconds + 600)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode("utf-8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), None
    execs = [int(x) for x in re.findall(r"execs: (\d+)", out)]
    new = re.findall(r"new interesting: (\d+) \(total: (\d+)\)", out)
    crash = None
    for f in glob.glob(os.path.join(src, "testdata", "fuzz", target, "*")):
        with open(f, errors="replace") as h:
            crash = h.read()
    return {"target": target, "seconds": seconds, "executions": execs[-1] if execs else 0,
            "corpus": int(new[-1][1]) if new else 0}, rc, crash, out


def main():
    argv = sys.argv[1:]
    if argv[:1] == ["--setup"]:
        for race in (False, True):
            work = tempfile.mkdtemp(prefix="vp-setup-")
            try:
                build(work, race)
            finally:
                shutil.rmtree(work, ignore_errors=True)
        say("ready")
        return 0
    pid = argv[0]
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    deadline = start + LIMIT[tier]
    work = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    os.makedirs(os.path.join(work, "stats"))
    try:
        binary = build(work, pid in RACE)
        if replay:
            return do_replay(pid, binary, work, replay)
        shards = int(os.environ.get("VP_SHARDS", "0")) or 8
        env = {"VERIF_SEED": str(seed), "VERIF_TIER": tier}
        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            results = list(ex.map(lambda s: run_shard(binary, work, "^Test%s_" % pid, s, shards, env, [], deadline), range(shards)))
        verdicts = [verdict(r) for r in results]
        fuzz, rc, lines = [], 0, []
        if tier == "thorough" and pid in FUZZ and all(v == "ok" for v in verdicts):
            for target in FUZZ[pid]:
                info, code, crash, out = run_fuzz(work, target, FUZZ_SECONDS)
                fuzz.append(info)
                if crash is not None:
                    d = os.path.join(HERE, "replays")
                    os.makedirs(d, exist_ok=True)
                    path = os.path.join(d, "%s-%s.json" % (pid, target))
                    with open(path, "w") as f:
                        json.dump({"property": pid, "test": target, "fuzz": crash, "output": out[-3500:]}, f, indent=1)
                    lines.append((path, out[-3500:]))
                elif code != 0:
                    say("fuzzing %s gave no answer:\n%s" % (target, out[-2000:]))
                    rc = 2
        for v, r in zip(verdicts, results):
            if v == "violation":
                lines.append((save_replay(pid, tier, seed, shards, r), excerpt(r["out"])))
        tests = merge(work)
        evidence(pid, tier, seed, tests, fuzz, time.time() - start, len(lines))
        for line in known(pid):
            say("KNOWN-FINDING: " + line)
        if lines:
            say(lines[0][1])
            for path, _ in lines:
                say("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, HERE)))
            return 1
        for v, r in zip(verdicts, results):
            if v == "error":
                say("no answer from shard %d (exit %s):\n%s" % (r["shard"], r["rc"], r["out"][-3000:]))
                rc = 2
        if not tests:
            say("no test ran for " + pid)
            rc = 2
        if rc == 0:
            say("%s held: %d cases, %d distinct non-trivial, %.1f s" % (pid, sum(t["evaluations"] for t in tests.values()) + sum(f["executions"] for f in fuzz),
                                                                  sum(len(t["hashes"]) for t in tests.values()), time.time() - start))
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


def do_replay(pid, binary, work, path):
    with open(path) as f:
        d = json.load(f)
    if d.get("fuzz"):
        src = os.path.join(work, "harness", "testdata", "fuzz", d["test"])
        os.makedirs(src)
        with open(os.path.join(src, "replay"), "w") as f:
            f.write(d["fuzz"])
        cwd = os.path.join(work, "harness")
        p = subprocess.run([binary, "-test.run", "^%s$/^replay$" % d["test"]], cwd=cwd, env=env_for({}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        say(p.stdout[-3500:])
        if p.returncode:
            say("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        say("not reproduced")
        return 0
    pattern = "^%s$" % d["test"] if d.get("test") else "^Test%s_" % pid
    env = {"VERIF_SEED": str(d["seed"]), "VERIF_TIER": d["tier"], "VP_STATS": ""}
    attempts = []
    if d.get("failfile"):
        ff = os.path.join(work, "replay.fail")
        with open(ff, "w") as f:
            f.write(d["failfile"])
        attempts.append((0, 1, dict(env, VP_REPLAY="1"), ["-rapid.failfile", ff]))
    attempts.append((d["shard"], d["shards"], env, []))
    for shard, shards, e, args in attempts:
        r = run_shard(binary, work, pattern, shard, shards, e, args, time.time() + LIMIT[d["tier"]])
        if verdict(r) == "violation":
            say(excerpt(r["out"]))
            say("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
    say("not reproduced")
    return 0


if __name__ == "__main__":
    sys.exit(main())
