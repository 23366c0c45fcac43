#!/usr/bin/env python3
"""Runs the static analysis that decides one property and writes its evidence file.

check.py <property>        decide one property (tier from VERIF_TIER)
check.py --setup           build the analyzer and the dependencies of the analysed crate
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NTRU_REPO", "/repo")
WORK = os.path.join(HERE, "work")
ANALYZER = os.path.join(HERE, "analyzer")
BIN = os.path.join(ANALYZER, "target", "release", "ntru-static")
VARIANTS = ["ntruhps2048509", "ntruhps2048677", "ntruhps4096821", "ntruhrss701"]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
sys.path.insert(0, os.path.join(HERE, "tools"))


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    r = sh(["rustc", "+nightly", "--print", "sysroot"])
    if r.returncode != 0:
        raise CheckError("no nightly toolchain: " + r.stdout)
    return r.stdout.strip()


def base_env(root):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN"):
            del env[k]
    env["LD_LIBRARY_PATH"] = os.path.join(root, "lib")
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def analyzer_key():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(ANALYZER, "src", "*.rs"))) + [os.path.join(ANALYZER, "Cargo.toml")]:
        h.update(os.path.basename(f).encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()


def build_analyzer(root):
    os.makedirs(WORK, exist_ok=True)
    stamp = os.path.join(WORK, "analyzer.key")
    key = analyzer_key()
    with open(os.path.join(WORK, "build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(BIN) and os.path.exists(stamp) and open(stamp).read() == key:
            return
        r = sh(["cargo", "+nightly", "build", "--release", "--offline", "--manifest-path", os.path.join(ANALYZER, "Cargo.toml"), "--target-dir", os.path.join(ANALYZER, "target")], env=base_env(root))
        if r.returncode != 0:
            raise CheckError("the analyzer does not build:\n" + r.stdout[-4000:])
        with open(stamp, "w") as f:
            f.write(key)


def ensure_lock():
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(HERE, "tools", "repo.Cargo.lock"), lock)


def record(root, config):
    """Let cargo compute the compiler command line of the library in this configuration."""
    d = os.path.join(WORK, "cfg-" + config)
    os.makedirs(d, exist_ok=True)
    rec = os.path.join(d, "rec.json")
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(rec):
            os.remove(rec)
        for pat in ("target/debug/.fingerprint/ntrust-native*", "target/debug/build/ntrust-native*", "target/debug/deps/*ntrust_native*"):
            for p in glob.glob(os.path.join(d, pat)):
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        env = base_env(root)
        env["RUSTC_WORKSPACE_WRAPPER"] = BIN
        env["NTRU_RECORD"] = rec
        env["RUSTFLAGS"] = "-Zalways-encode-mir"
        env["CARGO_TARGET_DIR"] = os.path.join(d, "target")
        cmd = ["cargo", "+nightly", "check", "--lib", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml")]
        if config != "default":
            cmd += ["--features", config]
        r = sh(cmd, env=env)
        if r.returncode != 0:
            raise CheckError("configuration %s does not compile:\n%s" % (config, r.stdout[-3000:]))
        if not os.path.exists(rec):
            raise CheckError("configuration %s: the compiler was not run" % config)
        return json.load(open(rec))


def run_job(root, config, rec, job):
    variant = "ntruhps2048509" if config == "default" else config
    out = os.path.join(WORK, "cfg-" + config, "out-%s-%d.json" % (hashlib.md5(job.encode()).hexdigest()[:10], os.getpid()))
    args = []
    skip = False
    for a in rec["args"]:
        if a.startswith("--emit"):
            a = "--emit=metadata"
        if a.startswith("--error-format") or a.startswith("--json"):
            continue
        args.append(a)
    # the same code without debug assertions
    name, _, mode = job.partition("@")
    if mode:
        args += ["-C", "debug-assertions=off", "-C", "overflow-checks=on"]
    env = base_env(root)
    env.update(rec["env"])
    env["CARGO_TARGET_DIR"] = ""
    env["NTRU_JOB"] = name
    env["NTRU_VARIANT"] = variant
    env["NTRU_OUT"] = out
    env["VERIF_TIER"] = TIER
    env["VERIF_SEED"] = str(SEED)
    if os.path.exists(out):
        os.remove(out)
    t = time.time()
    r = sh([BIN] + args, env=env, cwd=rec["cwd"])
    if os.environ.get("NTRU_DEBUG"):
        print(r.stdout)
    if r.returncode != 0 or not os.path.exists(out):
        raise CheckError("analysis %s of %s failed (%s):\n%s" % (job, config, r.returncode, r.stdout[-3000:]))
    js = json.load(open(out))
    os.remove(out)
    for j in js:
        j["config"] = config
        j["job"] = job
        j["wall"] = round(time.time() - t, 2)
    return js


def known_findings():
    p = os.path.join(HERE, "known-findings.txt")
    ks = []
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("known: property="):
                a = l[len("known: property="):].split(" ", 1)
                ks.append((a[0], a[1].strip()))
    return ks


def main():
    root = sysroot()
    t0 = time.time()
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        build_analyzer(root)
        ensure_lock()
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda c: record(root, c), VARIANTS + ["default"]))
        print("setup done in %.1f s" % (time.time() - t0))
        return 0
    prop = sys.argv[1]
    import plan
    if prop not in plan.PLAN:
        raise CheckError("no check for " + prop)
    pl = plan.PLAN[prop]
    build_analyzer(root)
    ensure_lock()
    jobs = plan.jobs(prop, TIER, VARIANTS)
    configs = sorted({c for c, _ in jobs})
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        recs = dict(zip(configs, ex.map(lambda c: record(root, c), configs)))
    jobs.sort(key=lambda j: -plan.cost(j))
    results = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for js in ex.map(lambda j: run_job(root, j[0], recs[j[0]], j[1]), jobs):
            results.extend(js)
        more = plan.followup(prop, results)
        for js in ex.map(lambda j: run_job(root, j[0], recs[j[0]], j[1]), more):
            results.extend(js)
    findings = {}
    errors = []
    counts = {}
    details = []
    for r in results:
        for f in r["findings"]:
            if f["prop"] == prop or plan.link(prop, r, f):
                k = f["key"].replace(REPO + "/", "")
                if f["prop"] != prop:
                    k = f["prop"] + ": " + k
                e = findings.setdefault(k, dict(f, variants=[]))
                e["key"] = k
                if r["config"] not in e["variants"]:
                    e["variants"].append(r["config"])
        errors += ["%s/%s: %s" % (r["config"], r["job"], e) for e in r["errors"]]
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        details.append({"configuration": r["config"], "job": r["job"], "seconds": r["ms"] / 1000.0, "counts": r["counts"]})
    errors += plan.floors(prop, results)
    samples = []
    for r in results:
        n = r.get("notes", {})
        for k in sorted(n):
            if k not in ("local_functions",) and not k.startswith("mir:") and len(samples) < 12:
                samples.append({"configuration": r["config"], "job": r["job"], k: n[k]})
    funcs = sorted({x for r in results for x in r.get("notes", {}).get("local_functions", [])})
    known = [k for p, k in known_findings() if p == prop]
    listed = {k: f for k, f in findings.items() if k in known}
    fresh = {k: f for k, f in findings.items() if k not in known}
    cov = {"rule": pl["rule"], "explanation": pl["explanation"], "configurations": len(configs), "analysis_jobs": len(results)}
    cov.update({k: v for k, v in sorted(counts.items()) if v})
    if funcs:
        cov["functions_analysed"] = funcs
    cov["samples"] = samples
    cov["runs"] = details
    if pl["level"] == "proof":
        ob, di = plan.obligations(prop, results)
        cov["obligations"] = ob
        cov["discharged"] = di - len(fresh) if di >= len(fresh) else 0
        cov["checker_cmd"] = "python3 check.py " + prop
        cov["trusted_base"] = pl["trusted"]
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": pl["level"], "coverage": cov, "assumptions": pl["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(listed):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if fresh:
        rp = os.path.join(HERE, "evidence", prop + "-violations.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "rerun": "python3 check.py " + prop, "violations": list(fresh.values())}, f, indent=1)
        for k, v in sorted(fresh.items())[:40]:
            loc = v["file"].replace(REPO + "/", "") + (":%d" % v["line"] if v["line"] else "")
            print("  %s in %s (%s) [%s]: %s" % (v["kind"], v["func"], loc, ", ".join(v["variants"]), v["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errors:
        print("analysis incomplete for %s:" % prop)
        for e in errors[:40]:
            print("  " + e)
        return 2
    print("%s holds: %d analysis jobs over %d configurations, %.1f s" % (prop, len(results), len(configs), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("check error: %s" % e)
        sys.exit(2)
