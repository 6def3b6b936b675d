#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--jobs a,b] [--keep]

Decides one property on /repo's current tree: the harnesses and the crate are compiled to LLVM IR, symex executes
the IR symbolically and puts every branch and assertion to the SMT solver, counterexamples are replayed against a
native build (dev and release profile) and only what reproduces is reported."""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import jobs as J

REPO = "/repo"
T = os.path.join(V, "target")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS="--cfg anothertls_verif")
T0 = time.time()
HARD = 820.0  # seconds of wall clock after which nothing new is waited for


def log(*a):
    print(*a, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for base in (REPO + "/anothertls", V + "/harness", V + "/ibig-model"):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".pem", ".der")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def cargo(args, cwd, tdir, feats=()):
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(T, tdir))
    cmd = ["cargo"] + args[:1] + ["--offline"] + (["--features", ",".join(feats)] if feats else []) + args[1:]
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def stale(tdir):
    """Cargo looks at time stamps only: forget its records when the content of the sources has changed."""
    stamp, h = os.path.join(T, tdir, "sources"), tree_hash()
    if os.path.isdir(os.path.join(T, tdir)) and (not os.path.exists(stamp) or open(stamp).read() != h):
        for f in glob.glob(os.path.join(T, tdir, "*", ".fingerprint", "*")):
            if re.match(r"(anothertls|vharness|ibig)-", os.path.basename(f)):
                shutil.rmtree(f)
    os.makedirs(os.path.join(T, tdir), exist_ok=True)
    open(stamp, "w").write(h)


def build_engine():
    rc, o = cargo(["build", "--release"], V + "/engine", "engine")
    if rc:
        fail("the engine does not build", o)
    return T + "/engine/release/symex"


def build_ir(feats):
    stale("sym")
    for f in glob.glob(T + "/sym/sym/deps/vharness-*.ll"):
        os.unlink(f)
    rc, o = cargo(["rustc", "--profile", "sym", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp",
                   "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"], V + "/harness/sym", "sym", feats)
    if not rc and not glob.glob(T + "/sym/sym/deps/vharness-*.ll"):
        shutil.rmtree(T + "/sym/sym/.fingerprint", ignore_errors=True)
        rc, o = cargo(["rustc", "--profile", "sym", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp",
                       "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"], V + "/harness/sym", "sym", feats)
    ll = glob.glob(T + "/sym/sym/deps/vharness-*.ll")
    if rc or not ll:
        fail("the harnesses do not build against /repo", o)
    return max(ll, key=os.path.getmtime)


def build_native(feats, rel):
    d = "nat-rel" if rel else "nat-dev"
    stale(d)
    rc, o = cargo(["build"] + (["--release"] if rel else []), V + "/harness/native", d, feats)
    if rc:
        fail("the native harnesses do not build against /repo", o)
    return os.path.join(T, d, "release" if rel else "debug", "vharness")


def fail(why, out=""):
    log("ERROR:", why)
    log(out[-3000:])
    os._exit(2)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    os.setsid()


PROCS = set()


def run_job(symex, ll, job, secs, outdir):
    out = os.path.join(outdir, job["name"] + ".json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [symex, ll, job["h"], "--param", ",".join(map(str, job["p"])), "--max-secs", str(int(secs)), "--max-cex", "3", "--out", out]
    for u in job.get("uf", []):
        cmd += ["--uf", u]
    if job.get("steps"):
        cmd += ["--max-steps", str(job["steps"])]
    cmd += job.get("args", [])
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits, text=True, env=ENV)
    PROCS.add(p)
    try:
        o, _ = p.communicate(timeout=secs + 40)
    except subprocess.TimeoutExpired:
        killp(p)
        o, _ = p.communicate()
    PROCS.discard(p)
    try:
        r = json.load(open(out))
    except Exception:
        r = dict(status="incomplete", incomplete=["engine ended with %s: %s" % (p.returncode, o[-300:])], paths=0, steps=0, queries=0,
                 sat=0, unsat=0, unknown=0, solver_s=0.0, max_query_s=0.0, functions=[], functions_total=0, samples=[], cex=[], reached={}, asserts={}, ended={},
                 asserts_folded=0, assert_queries=0, xcheck_queries=0, sweep_queries=0)
    r["wall"] = time.time() - t
    return r


def killp(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        try:
            p.kill()
        except Exception:
            pass


def write_case(path, job, syms):
    with open(path, "w") as f:
        f.write("harness %s\n" % job["h"])
        for p in job["p"]:
            f.write("param %d\n" % p)
        for n, b in syms:
            f.write("sym %s %s\n" % (n.encode().hex(), b))


def native(binary, job, path, tmo=30):
    d = path + ".d"
    os.makedirs(d, exist_ok=True)
    try:
        r = subprocess.run([binary, job["h"], path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo, text=True, errors="replace", cwd=d, stdin=subprocess.DEVNULL)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known_findings():
    p = os.path.join(V, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", default="")
    ap.add_argument("--par", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid, tier = a.prop, a.tier
    if pid == "setup":
        for c in ("z3-new", "cargo"):
            if not shutil.which(c):
                fail(c + " is missing")
        build_engine()
        return
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = J.PROPS[pid]
    work = [j for j in prop["jobs"](tier)]
    if a.jobs:
        work = [j for j in work if any(re.fullmatch(x, j["name"]) for x in a.jobs.split(","))]
    feats = prop["features"]
    outdir = os.path.join(T, "out", pid)
    repdir = os.path.join(V, "evidence", "replay")
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(repdir, exist_ok=True)
    for f in glob.glob(os.path.join(repdir, pid + "-*")):
        os.unlink(f)
    ev = os.path.join(V, "evidence", pid + ".json")
    if os.path.exists(ev):
        os.unlink(ev)
    with cf.ThreadPoolExecutor(4) as ex:
        fe = ex.submit(build_engine)
        fi = ex.submit(build_ir, feats)
        fd = ex.submit(build_native, feats, False)
        fr = ex.submit(build_native, feats, True)
        symex, ll, nd, nr = fe.result(), fi.result(), fd.result(), fr.result()
    tb = time.time() - T0
    if a.v:
        log("built in %.1f s" % tb)
    results, violations, unconfirmed, known = [], [], [], []
    validated, disagree, samples_out = 0, [], []
    lock = threading.Lock()
    kf = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "known"]
    stop = threading.Event()

    def one(job):
        nonlocal validated
        left = HARD - (time.time() - T0)
        if stop.is_set() or left < 5:
            return job, None
        secs = min(job.get("secs", 120), left)
        r = run_job(symex, ll, job, secs, outdir)
        for i, c in enumerate(r.get("cex", [])):
            path = os.path.join(repdir, "%s-%s-%d.txt" % (pid, job["name"], i))
            write_case(path, job, c["syms"])
            hit = []
            for prof, b in (("dev", nd), ("release", nr)):
                rc, o = native(b, job, path, 20 if c["kind"] == "hang" else 60)
                bad = rc in (77, 101, "timeout") or (isinstance(rc, int) and rc < 0) or rc in (134, 139)
                if bad:
                    hit.append((prof, rc, o))
            d = dict(job=job["name"], kind=c["kind"], msg=c["msg"], stack=c["stack"], replay=path)
            with lock:
                if hit:
                    d["native"] = ["%s: %s %s" % (p, rc, (re.findall(r"(?:ASSERTION FAILED|PANIC).*", o) or [""])[-1][:300]) for p, rc, o in hit]
                    k = [x for x in kf if x["job"] == job["name"] and x["msg"] == c["msg"]]
                    if k:
                        known.append((k[0], d))
                    else:
                        violations.append(d)
                        stop.set()
                else:
                    unconfirmed.append(d)
        if job.get("replay_samples", True):
            for i, s in enumerate(r.get("samples", [])):
                if stop.is_set():
                    break
                path = os.path.join(outdir, "%s-s%d.txt" % (job["name"], i))
                write_case(path, job, s["syms"])
                rc, o = native(nd, job, path, 120)
                marks = []
                for l in o.splitlines():
                    if l.startswith("REACHED: "):
                        marks.append("R:" + l[9:])
                    elif l.startswith("EMIT: ") or l == "EMIT:":
                        marks.append("E:" + l[6:])
                if rc == 0 and marks == s["marks"]:
                    with lock:
                        validated += 1
                        if len(samples_out) < 12 and i < 2:
                            samples_out.append(dict(job=job["name"], inputs={n: b[:96] for n, b in s["syms"]}, observed=[m[:80] for m in s["marks"]]))
                else:
                    with lock:
                        disagree.append(dict(job=job["name"], rc=str(rc), want=[m[:200] for m in s["marks"]], got=[m[:200] for m in marks], tail=o[-300:], case=path))
        return job, r

    # long jobs first
    work.sort(key=lambda j: -j.get("cost", j.get("secs", 0)))
    with cf.ThreadPoolExecutor(a.par) as ex:
        futs = [ex.submit(one, j) for j in work]
        for f in cf.as_completed(futs):
            job, r = f.result()
            results.append((job, r))
            if a.v and r:
                log("%-34s %-10s %6.1fs paths %-6d q %-6d reach %s %s" % (job["name"], r["status"], r["wall"], r["paths"], r["queries"], r["reached"], (r["incomplete"] or [""])[0][:160]))
            if stop.is_set():
                for p in list(PROCS):
                    killp(p)
    missing = []
    ok = [(j, r) for j, r in results if r]
    for j, r in ok:
        for m in j.get("reach", []):
            if not r["reached"].get(m):
                missing.append("%s: %s" % (j["name"], m))
    inc = ["%s: %s" % (j["name"], x) for j, r in ok for x in r["incomplete"][:3]] + ["%s: not run (stopped or out of time)" % j["name"] for j, r in results if not r]
    tot = lambda k: sum(r.get(k, 0) for _, r in ok)
    fns = sorted({f for _, r in ok for f in r.get("functions", [])})
    cov = dict(
        states=tot("paths"), transitions=tot("steps"), traces_validated_against_impl=validated, samples=samples_out,
        counting="states: symbolic paths run to their end; transitions: IR instructions executed symbolically; traces_validated_against_impl: completed paths whose solver-chosen inputs, replayed on the native build, reported the same markers and output bytes",
        harnesses=[dict(job=j["name"], harness=j["h"], params=j["p"], bounds=j.get("bounds", ""), status=r["status"], paths=r["paths"], queries=r["queries"], unsat=r["unsat"], solver_s=round(r["solver_s"], 2), wall_s=round(r["wall"], 1), asserts=r["asserts"], reached=r["reached"], ended=r["ended"]) for j, r in ok],
        queries=tot("queries"), queries_sat=tot("sat"), queries_unsat=tot("unsat"), queries_unknown=tot("unknown"), assertion_checks=tot("assert_queries"), assertions_decided_by_folding=tot("asserts_folded"),
        sweep_queries=tot("sweep_queries"), cross_checked_queries=tot("xcheck_queries"), solver_s=round(sum(r["solver_s"] for _, r in ok), 2), max_query_s=max([r["max_query_s"] for _, r in ok] or [0]),
        functions_encoded=fns, ir_functions_entered=max([r["functions_total"] for _, r in ok] or [0]),
        bounds=prop["bounds"], outside=prop["outside"], incomplete=inc, markers_not_reached=missing, engine_native_disagreements=disagree[:10], unconfirmed_counterexamples=unconfirmed[:10],
        build_s=round(tb, 1), exhaustive=False)
    evd = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=prop.get("level", "model_checking"), coverage=cov,
               assumptions=prop["assumptions"], wall_s=round(time.time() - T0, 1), violations=len(violations))
    json.dump(evd, open(ev, "w"), indent=1)
    for k, d in known:
        log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for m in inc[:8]:
        log("NOTE incomplete:", m)
    for m in missing[:8]:
        log("NOTE marker not reached:", m)
    for m in unconfirmed[:8]:
        log("NOTE counterexample not reproduced natively:", m["job"], m["kind"], m["msg"], m["replay"])
    for m in disagree[:8]:
        log("NOTE engine and native build disagree:", json.dumps(m)[:1200])
    log("%s %s: %d jobs, %d paths, %d queries, solver %.1f s, %d traces validated, %.1f s" % (pid, tier, len(ok), tot("paths"), tot("queries"), tot("solver_s"), validated, time.time() - T0))
    if violations:
        for d in violations:
            log("violated in %s: %s %s | %s | %s" % (d["job"], d["kind"], d["msg"], " < ".join(d["stack"][:5]), "; ".join(d["native"])))
            log("VIOLATION property=%s replay=%s" % (pid, d["replay"]))
        sys.stdout.flush()
        os._exit(1)
    os._exit(0)


if __name__ == "__main__":
    main()
