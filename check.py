#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: build the monitors against /repo's
working tree, run the workloads of one property, judge, write evidence.
exit 0 held, 1 violated (VIOLATION line), 2 no answer."""
import concurrent.futures as cf, fcntl, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(V, "target")
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS  # noqa: E402


def sh(cmd, cwd=None, timeout=None, env=None):
    return subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env, capture_output=True, text=True, errors="replace")


def tree_hash():
    """Contents of every source the harness is built from."""
    h = hashlib.sha256()
    roots = [REPO, os.path.join(V, "harness"), os.path.join(V, "macrocheck")]
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in (".git", "target", "evidence"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def build(crate, pkgs=("aj_core", "aj", "aj_macro")):
    """cargo decides staleness by file times; decide by contents instead."""
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    d = os.path.join(V, crate)
    stamp = os.path.join(TARGET, ".stamp-" + crate)
    want = tree_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have and have != want:
        for p in list(pkgs) + ["ajmon" if crate == "harness" else crate]:
            sh(["cargo", "clean", "--offline", "-q", "-p", p], cwd=d, env=env)
    if os.path.exists(stamp):
        os.unlink(stamp)
    r = sh(["cargo", "build", "--offline", "-q"], cwd=d, env=env, timeout=800)
    if r.returncode == 0:
        with open(stamp, "w") as f:
            f.write(want)
    lock.close()
    return r


def build_tsan():
    """The harness and the standard library under ThreadSanitizer.  Own target
    directory; RUSTC_BOOTSTRAP because only the stable compiler builds the
    pinned dependencies."""
    t = os.path.join(V, "target", "tsan")
    os.makedirs(t, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=t, CARGO_NET_OFFLINE="true", RUSTC_BOOTSTRAP="1", RUSTFLAGS="-Zsanitizer=thread")
    d = os.path.join(V, "harness")
    stamp = os.path.join(t, ".stamp")
    want = tree_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have and have != want:
        for p in ("aj_core", "aj", "aj_macro", "ajmon"):
            sh(["cargo", "clean", "--offline", "-q", "--target", "x86_64-unknown-linux-gnu", "-p", p], cwd=d, env=env)
    if os.path.exists(stamp):
        os.unlink(stamp)
    try:
        r = sh(["cargo", "build", "--offline", "-q", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"], cwd=d, env=env, timeout=500)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    if r.returncode:
        return None, r.stderr[-1500:]
    with open(stamp, "w") as f:
        f.write(want)
    return os.path.join(t, "x86_64-unknown-linux-gnu", "debug", "ajmon"), ""


def run_tsan(exe, workers, seed, tmp, par):
    """Same workloads; a race report refutes, whatever the workload's verdict.
    Timing oracles are not judged here (everything is slower)."""
    out, jobs, i = [], [], 0
    for w in workers:
        for _ in range(w.get("n", 1)):
            s = seed * 200003 + i
            i += 1
            log = os.path.join(tmp, f"tsan{i}")
            env = dict(w.get("env", {}), TSAN_OPTIONS=f"log_path={log} halt_on_error=0 exitcode=0 report_signal_unsafe=0")
            jobs.append(([exe] + w["args"] + ["--seed", str(s)], w.get("timeout", 400), tmp, env, log))
    with cf.ThreadPoolExecutor(par) as ex:
        for (j, r), full in zip(ex.map(lambda j: run_worker(j[:4]), jobs), jobs):
            reports = ""
            for f in sorted(os.listdir(tmp)):
                if f.startswith(os.path.basename(full[4]) + "."):
                    reports += open(os.path.join(tmp, f), errors="replace").read()
            n = reports.count("WARNING: ThreadSanitizer")
            if n:
                out.append({"verdict": "violated", "msg": f"ThreadSanitizer: {n} report(s)\n" + reports[:3000], "argv": full[0]})
            elif r["verdict"] == "held":
                out.append({"verdict": "held", "stats": {"tsan_runs": 1, "tsan_evaluations": r.get("evaluations", 0)}})
            else:
                out.append({"verdict": "inconclusive", "msg": "under TSan: " + r.get("msg", "")[:300], "argv": full[0]})
    return out


def run_worker(job):
    """One process = one execution under monitors.  Returns (job, result)."""
    argv, timeout, tmp, env = job
    e = dict(os.environ, AJMON_TMP=tmp, RUST_LOG="off", RUST_BACKTRACE="0", **env)
    p = subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return job, {"verdict": "inconclusive", "msg": f"watchdog {timeout}s", "err": err.decode(errors="replace")[-2000:]}
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
    for line in out.decode(errors="replace").split("\n"):
        if line.startswith("RESULT "):
            try:
                return job, json.loads(line[7:])
            except ValueError as x:
                return job, {"verdict": "inconclusive", "msg": f"bad result line: {x}"}
    if -p.returncode in (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL):
        return job, {"verdict": "violated", "msg": f"the process using the engine died of signal {-p.returncode}: " + err.decode(errors="replace")[-1500:]}
    return job, {"verdict": "inconclusive", "msg": f"no result, exit {p.returncode}", "err": err.decode(errors="replace")[-3000:]}


def known_findings():
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                # known: property=<id> key=<key> <text>
                parts = l.split(None, 3)
                out.append((parts[1].split("=")[1], parts[2].split("=")[1], parts[3]))
    return out


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = os.environ.get("AJMON_ONLY")
    t0 = time.time()
    c = CHECKS[pid]
    b = build("harness")
    if b.returncode != 0:
        print("cannot build the harness against /repo:\n" + b.stderr[-6000:])
        return 2
    violations, known_hit, inconclusive, results = [], {}, [], []
    extra_cov = {}
    binary = os.path.join(TARGET, "debug", "ajmon")
    if c.get("macro"):
        b = build("macrocheck")
        if b.returncode != 0:
            # the library itself builds (the harness links it): programs using
            # the macro as documented do not compile any more
            violations.append(({"argv": ["cargo build", "macrocheck"]}, {"verdict": "violated", "msg": "programs using #[job] / derive(BackgroundJob) do not compile: " + b.stderr[-3000:]}))
    tmp = tempfile.mkdtemp(prefix="ajmon-")
    try:
        jobs = []
        i = 0
        for w in c[tier]:
            if only and only not in " ".join(w["args"]):
                continue
            for _ in range(w.get("n", 1)):
                s = seed * 100003 + i
                i += 1
                exe = os.path.join(TARGET, "debug", w.get("bin", "ajmon"))
                argv = [exe] + [str(seed * 1000 + int(a[1:])) if a[0] == "@" else a for a in w["args"]] + ["--seed", str(s)]
                jobs.append((argv, w.get("timeout", 240), tmp, w.get("env", {})))
        deadline = t0 + (780 if tier == "quick" else c.get("thorough_budget", 3000))
        if violations:
            jobs = []
        par = c.get("parallel", 12)
        with cf.ThreadPoolExecutor(par) as ex:
            pend = {ex.submit(run_worker, j) for j in jobs}
            while pend:
                done, pend = cf.wait(pend, timeout=5, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    j, r = f.result()
                    results.append(r)
                    if r["verdict"] == "violated":
                        violations.append((dict(argv=j[0], env=j[3]), r))
                    elif r["verdict"] != "held":
                        inconclusive.append((j[0], r))
                if violations or time.time() > deadline:
                    for f in pend:
                        f.cancel()
                    pend = {f for f in pend if not f.cancelled()}
                    if time.time() > deadline + 100:
                        break
        if c.get("tsan", {}).get(tier) and not violations and not only:
            exe, why = build_tsan()
            if exe:
                for r in run_tsan(exe, c["tsan"][tier], seed, tmp, c.get("parallel", 12)):
                    if r["verdict"] == "violated":
                        violations.append((dict(argv=r["argv"]), r))
                    elif r["verdict"] == "held":
                        results.append(r)
                    else:
                        extra_cov.setdefault("tsan_inconclusive", []).append(r["msg"])
            else:
                extra_cov["tsan"] = "build failed: " + why
        if c.get("extra"):
            for r in c["extra"](tier, seed, tmp):
                if r["verdict"] == "violated":
                    violations.append((dict(argv=r.get("argv", [])), r))
                elif r["verdict"] == "inconclusive":
                    inconclusive.append((r.get("argv", []), r))
                else:
                    results.append(r)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    held = [r for r in results if r["verdict"] == "held"]
    stats, distinct, samples, evals = {}, set(), [], 0
    for r in held:
        for k, v in r.get("stats", {}).items():
            stats[k] = max(stats.get(k, 0), v) if k.startswith("max_") else stats.get(k, 0) + v
        distinct.update(r.get("distinct", []))
        evals += r.get("evaluations", 0)
        for s in r.get("samples", []):
            if len(samples) < 4 and len(json.dumps(s)) < 6000:
                samples.append(s)
        for k in r.get("known", []):
            known_hit[k] = known_hit.get(k, 0) + 1
    listed = {k: t for p, k, t in known_findings() if p == pid}
    for k in known_hit:
        if k not in listed:
            violations.append((dict(argv=["known-finding " + k]), {"verdict": "violated", "msg": f"unlisted finding {k}"}))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct), "rule": c["rule"],
            "samples": samples, "processes": len(results), "processes_inconclusive": len(inconclusive),
            "observed": stats, **extra_cov,
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    if c.get("exhaustive") and not inconclusive and held:
        ev["coverage"]["exhaustive"] = True
    if known_hit:
        ev["coverage"]["known_findings_observed"] = known_hit
    if inconclusive:
        ev["coverage"]["inconclusive"] = [f"{' '.join(a[1:])}: {r.get('msg', '')[:300]}" for a, r in inconclusive[:5]]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for k, n in known_hit.items():
        if k in listed:
            print(f"KNOWN-FINDING: property={pid} {k}: {listed[k]}")
    if violations:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        for n, (w, r) in enumerate(violations[:3]):
            path = os.path.join(V, "replays", f"{pid}-{tier}-{n}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "run": w, "replay_cmd": " ".join(w.get("argv", [])),
                           "what": r.get("msg"), "panics": r.get("panics"), "log_tail": r.get("log_tail")}, f, indent=1)
            if n == 0:
                print(f"what: {r.get('msg', '')[:1500]}")
                print(f"VIOLATION property={pid} replay={path}")
        return 1
    for a, r in inconclusive[:3]:
        print("inconclusive:", " ".join(a[1:]), r.get("msg", "")[:600], r.get("err", "")[-600:])
    if not held or len(inconclusive) > len(held) or evals < c.get("min_evals", 1) or len(distinct) < c.get("min_distinct", 2):
        print(f"no answer: {len(held)} held, {len(inconclusive)} inconclusive, {evals} evaluations, {len(distinct)} distinct")
        return 2
    print(f"property {pid} held on {evals} evaluations ({len(distinct)} distinct), {len(held)} processes, {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        bad = 0
        for crate in ("harness", "macrocheck"):
            if os.path.isdir(os.path.join(V, crate)):
                r = build(crate)
                if r.returncode:
                    print(r.stderr[-4000:])
                    bad = 1
        sys.exit(bad)
    sys.exit(main())
