"""Runs of the C interface through the shared library from C, natively and under Valgrind, and the
classification of sanitizer and interpreter reports."""
import json, os, subprocess


def _env(toolchain="1.85.0"):
    e = dict(os.environ)
    e.update({"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "RUSTUP_TOOLCHAIN": toolchain})
    e.pop("RUSTFLAGS", None)
    return e


def build_driver(root):
    h = os.path.join(root, "harness")
    tgt = os.path.join(h, "target", "cdylib")
    e = _env()
    e["CARGO_TARGET_DIR"] = tgt
    p = subprocess.run(["cargo", "build", "--offline", "--release", "-p", "cavalier_contours_ffi", "--manifest-path", "/repo/Cargo.toml"],
                       cwd=h, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return None, p.stdout[-3000:]
    lib = os.path.join(tgt, "release")
    exe = os.path.join(h, "target", "c_driver")
    p = subprocess.run(["gcc", "-O1", "-g", "-Wall", os.path.join(h, "c", "driver.c"), "-o", exe, "-L" + lib, "-lcavalier_contours_ffi", "-lm", "-Wl,-rpath," + lib],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        # a symbol of the documented interface that is not exported any more
        if "undefined reference" in p.stdout:
            return "missing", p.stdout
        return None, p.stdout[-3000:]
    return exe, ""


def write_replay(root, pid, run, seed, tier, kind, msg):
    d = os.path.join(root, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (pid, run["label"], seed))
    json.dump({"property": pid, "label": run["label"], "seed": seed, "tier": tier, "kind": kind, "message": msg[-6000:],
               "how": "rerun the check with VERIF_SEED=%d" % seed}, open(path, "w"), indent=1)
    return path


def c_driver(pid, tier, seed, run, root):
    exe, err = build_driver(root)
    if exe is None:
        return 2, None, "BUILD-FAILED\n" + err
    if exe == "missing":
        path = write_replay(root, pid, run, seed, tier, "abi", err)
        return 1, None, "VIOLATION property=%s replay=%s\n  [abi] a function of the documented interface cannot be linked\n%s" % (pid, path, err[:500])
    n = run["n"][tier]
    cmd = run.get("prefix", []) + [exe, str(seed), str(n)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=600)
        rc, out, er = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 2, None, "driver timed out"
    ev = {l.split()[1]: int(l.split()[2]) for l in out.splitlines() if l.startswith("EV ")}
    part = {"evaluations": ev.get("c_histories", 0), "distinct_nontrivial": ev.get("c_histories", 0), "monitored_events": ev, "violations": 0,
            "rule": "random C histories through the shared library" + (" under " + os.path.basename(run["prefix"][0]) if run.get("prefix") else ""), "wall_s": 0.0,
            "samples": [{"class": "c-driver", "index": 0, "input": "driver seed %d histories %d" % (seed, n)}]}
    if rc == 0 and "DONE" in out:
        return 0, part, ""
    part["violations"] = 1
    first = next((l for l in out.splitlines() if l.startswith("FAIL")), "") or "exit %d: %s" % (rc, er.strip()[:600])
    path = write_replay(root, pid, run, seed, tier, "c-driver", first + "\n" + er)
    return 1, part, "VIOLATION property=%s replay=%s\n  [c-driver] %s" % (pid, path, first)


def sanitizer(pid, rc, out, err, rdir, run, seed, tier):
    """classify the end of an instrumented run"""
    root = os.path.dirname(rdir)
    if "LeakSanitizer has encountered a fatal error" in err:
        return 2, "\nLeakSanitizer cannot run here\n" + err[-500:]
    for key in ("ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "WARNING: ThreadSanitizer", "Undefined Behavior"):
        if key in err:
            i = err.index(key)
            msg = err[i:i + 4000]
            path = write_replay(root, pid, run, seed, tier, "sanitizer", msg)
            return 1, "\nVIOLATION property=%s replay=%s\n  [sanitizer] %s" % (pid, path, msg.splitlines()[0])
    if "ThreadSanitizer: unexpected memory mapping" in err:
        return 0, "\nThreadSanitizer cannot map its shadow memory here: no observation by this run"
    if rc in (-6, -11, -4, -7, -8):
        path = write_replay(root, pid, run, seed, tier, "abort", err)
        return 1, "\nVIOLATION property=%s replay=%s\n  [abort] the program was ended by signal %d: %s" % (pid, path, -rc, err.strip()[-300:])
    return 2, "\nABORTED rc=%d\n%s" % (rc, err[-3000:])


def two_builds(pid, tier, seed, run, root):
    """every result of the build with the feature is bit for bit the result of the build without"""
    h = os.path.join(root, "harness")
    exes = []
    for feat, tdir in (("", os.path.join(h, "target")), (run["feature"], os.path.join(h, "target", run["feature"]))):
        e = _env()
        e["CARGO_TARGET_DIR"] = tdir
        cmd = ["cargo", "build", "--offline", "--release", "--bin", run["bin"]] + (["--features", feat] if feat else [])
        b = subprocess.run(cmd, cwd=h, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode:
            return 2, None, "BUILD-FAILED\n" + b.stdout[-3000:]
        exes.append(os.path.join(tdir, "release", run["bin"]))
    n, procs, lines, bad = run["n"][tier], 8, 0, ""
    sds = [seed * 1000 + k for k in range(procs)]
    ps = [[subprocess.Popen([x, "--digests", str(s), str(n // procs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for s in sds] for x in exes]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2 * procs) as ex:
        outs = list(ex.map(lambda q: (q.communicate(), q.returncode), ps[0] + ps[1]))
    for k in range(procs):
        (a, ea), ra = outs[k]
        (b, eb), rb = outs[procs + k]
        if ra != 0 or not a.endswith("END\n"):
            return 2, None, "the plain build ended with %d: %s" % (ra, ea[-500:])
        if rb != 0:
            bad = "the build with %s ended with %d: %s" % (run["feature"], rb, eb[-500:])
            break
        la, lb = a.splitlines(), b.splitlines()
        d = [i for i in range(min(len(la), len(lb))) if la[i] != lb[i]]
        if d or len(la) != len(lb):
            bad = "seed %d: %s with the feature, %s without" % (sds[k], lb[d[0]] if d else len(lb), la[d[0]] if d else len(la))
            break
        lines += len(la)
    part = {"evaluations": lines, "distinct_nontrivial": n, "monitored_events": {"results_compared": lines}, "violations": int(bool(bad)), "wall_s": 0.0,
            "rule": "results of the same operations in two builds", "samples": [{"class": "two-builds", "index": 0, "input": "digest seeds %s" % sds}]}
    if bad:
        path = write_replay(root, pid, run, seed, tier, "two-builds", bad)
        return 1, part, "VIOLATION property=%s replay=%s\n  [two-builds] %s" % (pid, path, bad)
    return 0, part, ""


def miri(pid, tier, seed, run, root):
    """the same workload, small, interpreted by Miri: several processes with their own seeds"""
    h = os.path.join(root, "harness")
    e = _env("nightly")
    e["CARGO_TARGET_DIR"] = os.path.join(h, "target", "miri")
    e["RUSTFLAGS"] = "--cfg raw_alloc -Adangerous_implicit_autorefs"
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-deterministic-floats"
    procs, parts, out = [], [], ""
    e["MIRIFLAGS"] += run.get("flags", "")
    base = ["cargo", "miri", "run", "--offline", "--bin", run["bin"]] + run.get("build_args", []) + ["--"]
    # build first, so that the parallel runs do not wait for each other
    b = subprocess.run(base + ["NONE"], cwd=h, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if "unknown property" not in b.stdout:
        return 2, None, "BUILD-FAILED (miri)\n" + b.stdout[-3000:]
    for k in range(run.get("procs", 8)):
        f = os.path.join(h, "target", "miri-%s-%d-%d.json" % (pid, os.getpid(), k))
        s = seed * 1000 + k
        cmd = base + [pid, "--tier", "quick", "--seed", str(s), "--label", run["label"], "--threads", "1", "--out", f,
                      "--replay-dir", os.path.join(root, "replay"), "--known", os.path.join(root, "known_findings.jsonl"), "--scale", str(run["scale"][tier])]
        procs.append((s, f, subprocess.Popen(cmd, cwd=h, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")))
    worst = 0
    for s, f, p in procs:
        o, er = p.communicate()
        rc = p.returncode
        if rc == 1 and "VIOLATION" not in o:
            rc, extra = sanitizer(pid, rc, o, er, os.path.join(root, "replay"), run, s, tier)
            o += extra
        out += o
        if os.path.exists(f):
            parts.append(json.load(open(f)))
            os.remove(f)
        if rc == 1:
            worst = 1
        elif rc != 0 and worst == 0:
            worst, out = 2, out + "\nABORTED (miri) rc=%d %s" % (rc, er[-2000:])
    if not parts:
        return worst or 2, None, out
    m = {"evaluations": 0, "distinct_nontrivial": 0, "monitored_events": {}, "violations": 0, "rule": parts[0]["rule"], "samples": [], "wall_s": 0.0}
    for q in parts:
        m["evaluations"] += q["evaluations"]
        m["distinct_nontrivial"] += q["distinct_nontrivial"]
        m["violations"] += q["violations"]
        m["wall_s"] = max(m["wall_s"], q["wall_s"])
        for k, v in q["monitored_events"].items():
            m["monitored_events"][k] = m["monitored_events"].get(k, 0) + v
    return worst, m, out
