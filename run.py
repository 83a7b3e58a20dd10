#!/usr/bin/env python3
"""Runs the check of one property.

  run.py C05                 check property C05 (VERIF_TIER, VERIF_SEED from the environment)
  run.py C05 --tier thorough
  run.py --replay FILE       run a recorded failure again
  run.py --build             compile everything once (setup)

Exit status: 0 held on everything explored, 1 violation, 2 the check itself failed.
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
KNOWN = os.path.join(VERIF, "known_findings.json")
GO = "/opt/veriftools/go1.27.3/bin/go"

# property -> [(package, build flags, shards (0 = number of cores)[, start of the test names])]
CHECKS = json.load(open(os.path.join(VERIF, "checks.json")))

BUDGET = {"quick": 420, "thorough": 6 * 3600}      # per process, after which no new case is started
TOTAL = {"quick": 600, "thorough": 6 * 3600}       # ... and per check
KILL = {"quick": 780, "thorough": 7 * 3600}


def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOPROXY="off", GOWORK="off", GOSUMDB="off",
             GONOSUMDB="*", GOTELEMETRY="off")
    e["PATH"] = os.path.dirname(GO) + ":/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    return e


class BuildError(Exception):
    pass


def build(pkg, flags, outdir):
    out = os.path.join(outdir, pkg.replace("/", "_") + ("_race" if "-race" in flags else "") + ".test")
    p = subprocess.run([GO, "test", "-c", "-vet=off", *flags, "-o", out, "./" + pkg], cwd=HARNESS, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(p.stdout)
    return out


def known_ids(prop):
    try:
        data = json.load(open(KNOWN))
    except FileNotFoundError:
        return {}
    return {k["id"]: k for k in data.get("known", []) if k["property"] == prop}


def run_shards(prop, binary, pkg, nshards, base, tier, seed, known, extra_env=None, args=(), only="", t0=None):
    procs = []
    budget = max(20, min(BUDGET[tier], TOTAL[tier] - int(time.time() - (t0 or time.time()))))
    for i in range(nshards):
        d = os.path.join(base, "%s%s-%d" % (os.path.basename(binary), only, i))
        os.makedirs(d)
        e = env()
        e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_SHARD=str(i), VERIF_SHARDS=str(nshards),
                 VERIF_STATS=os.path.join(d, "stats.json"), VERIF_KNOWN=",".join(known),
                 VERIF_BUDGET_S=str(budget), VERIF_PROP=prop, TMPDIR=d,
                 GORACE="halt_on_error=0 exitcode=66")
        if nshards >= 4:
            e["GOMAXPROCS"] = "2"
        e.update(extra_env or {})
        log = open(os.path.join(d, "log"), "w")
        p = subprocess.Popen([binary, "-test.run", "^Test%s_%s" % (prop, only), "-test.timeout", "0", "-test.v=false", *args],
                             cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT)
        procs.append((i, d, p, log))
    end = (t0 or time.time()) + KILL[tier]
    res = []
    for i, d, p, log in procs:
        try:
            rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        log.close()
        res.append((i, d, rc, open(os.path.join(d, "log"), errors="replace").read()))
    return res


def failing_tests(log):
    return re.findall(r"^\s*--- FAIL: (Test\S+)", log, re.M)


def save_replay(prop, pkg, flags, shard, nshards, d, rc, log, tier, seed, kind):
    dst = os.path.join(VERIF, "replays", prop)
    os.makedirs(dst, exist_ok=True)
    tests = failing_tests(log)
    test = tests[0] if tests else ""
    failfile = ""
    cand = sorted(glob.glob(os.path.join(d, "testdata", "rapid", "*", "*.fail")))
    body = ""
    for c in cand:
        body = open(c, errors="replace").read()
        failfile = c
        break
    if not test:
        m = re.search(r"VERIF-HANG (\S+)", log) or re.search(r"\b(Test%s_\w+)" % prop, log)
        test = m.group(1) if m else ""
    name = "%s-%s-seed%s-shard%d.json" % (test or "run", kind, seed, shard)
    path = os.path.join(dst, name)
    json.dump({"property": prop, "package": pkg, "flags": flags, "test": test, "kind": kind, "tier": tier,
               "seed": seed, "shard": shard, "shards": nshards, "rapid_failfile": body,
               "log": log[-20000:]}, open(path, "w"), indent=1)
    return path


def classify(rc, log):
    """-> None (fine), 'violation' kind, or 'error'"""
    if rc == 0:
        return None
    if rc == "timeout":
        return "error"
    if "VERIF-HANG" in log:
        return "hang"
    if "WARNING: DATA RACE" in log:
        return "race"
    if failing_tests(log):
        if "only generated" in log and "[rapid] failed" not in log and "[rapid] panic" not in log and "[rapid] flaky" not in log:
            return "error"
        if "HARNESS-ERROR" in log:
            return "error"
        return "violation"
    # the runtime gave up: stack overflow, concurrent map access, out of memory ... blamed on the
    # code under test only if it is on the stack
    if re.search(r"^(fatal error|panic|runtime: goroutine stack exceeds)", log, re.M) and "dusk-network/dusk-crypto" in log:
        return "crash"
    return "error"


def check(prop, tier, seed):
    t0 = time.time()
    spec = CHECKS[prop]
    known = known_ids(prop)
    ncpu = os.cpu_count() or 4
    base = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    try:
        violations, errors, tests, knownhit = [], [], {}, {}
        for pkg, flags, nshards, *only in spec["runs"]:
            if violations:
                break
            only = only[0] if only else ""
            n = nshards or min(ncpu, 8)
            try:
                binary = build(pkg, flags, base)
            except BuildError as e:
                print(e)
                print("check %s: the harness does not build against /repo" % prop)
                return 2
            for i, d, rc, log in run_shards(prop, binary, pkg, n, base, tier, seed, known, only=only, t0=t0):
                kind = classify(rc, log)
                if kind == "crash" and "fatal error: concurrent map" not in log:  # confirm
                    again = run_shards(prop, binary, pkg, 1, os.path.join(d, "again"), tier, seed, known,
                                       {"VERIF_SHARD": str(i), "VERIF_SHARDS": str(n)}, only=only)[0]
                    if classify(again[2], again[3]) is None:
                        kind = "error"
                if kind == "error":
                    errors.append((pkg, i, rc, log[-6000:]))
                elif kind:
                    violations.append((save_replay(prop, pkg, flags, i, n, d, rc, log, tier, seed, kind), log))
                try:
                    st = json.load(open(os.path.join(d, "stats.json")))
                except (OSError, ValueError):
                    st = {"tests": [], "known": []}
                for t in st["tests"]:
                    key = (t["test"], "-race" in flags)
                    m = tests.setdefault(key, {"rule": t["rule"], "evaluations": 0, "skipped": 0, "keys": set(),
                                               "samples": [], "labels": {}})
                    m["evaluations"] += t["evaluations"]
                    m["skipped"] += t["skipped_after_deadline"]
                    m["keys"].update(t["keys"] or [])
                    m["samples"] += t["samples"] or []
                    for k, v in (t["labels"] or {}).items():
                        m["labels"][k] = m["labels"].get(k, 0) + v
                for k in st.get("known") or []:
                    knownhit.setdefault(k["id"], k["detail"])
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": sum(m["evaluations"] for m in tests.values()),
                "distinct_nontrivial": sum(len(set().union(*(m["keys"] for k, m in tests.items() if k[0] == name)))
                                           for name in {k[0] for k in tests}),
                "rule": " | ".join("%s%s: %s" % (k[0], " (race detector on)" if k[1] else "", m["rule"])
                                   for k, m in sorted(tests.items())),
                "samples": ["%s: %s" % (k[0], s) for k, m in sorted(tests.items()) if not k[1] for s in m["samples"][:2]],
                "per_test": {k[0] + ("+race" if k[1] else ""): {
                    "evaluations": m["evaluations"], "distinct_nontrivial": len(m["keys"]),
                    "not_started_for_lack_of_time": m["skipped"], "kinds": m["labels"]}
                    for k, m in sorted(tests.items())},
                "known_findings_seen": sorted(knownhit),
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - t0, 1),
            "violations": len(violations),
        }
        json.dump(ev, open(ev_path, "w"), indent=1)
        for k in sorted(knownhit):
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known[k]["what"] if k in known else knownhit[k]))
        if violations:
            path, log = violations[0]
            print(log[-5000:])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if errors:
            for pkg, i, rc, log in errors[:2]:
                print("check %s: %s shard %d ended with %s\n%s" % (prop, pkg, i, rc, log))
            return 2
        if not tests or ev["coverage"]["evaluations"] == 0:
            print("check %s: nothing was run" % prop)
            return 2
        print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (
            prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], time.time() - t0))
        return 0
    finally:
        shutil.rmtree(base, ignore_errors=True)


def do_replay(path):
    r = json.load(open(path))
    base = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        binary = build(r["package"], r["flags"], base)
        known = known_ids(r["property"])
        d = os.path.join(base, "x")
        os.makedirs(d)
        extra, args = {}, ["-test.run", "^%s$" % r["test"]] if r["test"] else []
        if r["rapid_failfile"]:
            f = os.path.join(base, "replay.fail")
            open(f, "w").write(r["rapid_failfile"])
            extra["VERIF_REPLAY"] = "1"
            args += ["-rapid.failfile", f]
        else:
            extra.update(VERIF_SHARD=str(r["shard"]), VERIF_SHARDS=str(r["shards"]))
        _, _, rc, log = run_shards(r["property"], binary, r["package"], 1, d, r["tier"], r["seed"], known, extra, args)[0]
        print(log[-20000:])
        if classify(rc, log) not in (None, "error"):
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            return 1
        return 0 if rc == 0 else 2
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    a = ap.parse_args()
    if a.build:
        base = tempfile.mkdtemp(prefix="verif-build-")
        try:
            for pkg, flags in sorted({(p, tuple(f)) for s in CHECKS.values() for p, f, *_ in s["runs"]}):
                build(pkg, list(flags), base)
        except BuildError as e:
            print(e)
            return 2
        finally:
            shutil.rmtree(base, ignore_errors=True)
        print("built")
        return 0
    if a.replay:
        return do_replay(a.replay)
    if a.property not in CHECKS:
        print("unknown property", a.property)
        return 2
    return check(a.property, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
