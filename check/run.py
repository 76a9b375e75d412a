#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough

Builds the engine, the LLVM IR of the harnesses over /repo's current tree and the native replayer,
runs the property's jobs, replays every counterexample natively, and writes evidence/PROPERTY.json.
Exit 0: held within the bounds. Exit 1: VIOLATION. Exit 2: the check has no answer.
"""
import collections
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "check"))
import jobs as jobspec  # noqa: E402

TC = "stable-x86_64-unknown-linux-gnu"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
ASSUMPTIONS = [
    "SHA-256 is an ideal hash: collision-free, never 32 zero bytes, and equal to the hash of the empty string only for the empty message",
    "memory allocation succeeds",
    "storage is a map with the fuel-storage contract; it fails only where the property makes it fail",
    "rustc's LLVM IR (opt-level 1, overflow checks and debug assertions on) stands for the source; single-threaded",
]


class Fail(Exception):
    pass


def sh(cmd, cwd, log, env=None):
    with open(log, "wb") as f:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if p.returncode:
        with open(log, errors="replace") as f:
            raise Fail("%s failed:\n%s" % (" ".join(cmd[:4]), f.read()[-4000:]))


def build_engine():
    t = os.path.join(V, "engine", "target")
    sh(["cargo", "build", "--offline", "--release"], os.path.join(V, "engine"), os.path.join(W, "engine.log"), dict(ENV, CARGO_TARGET_DIR=t))
    return os.path.join(t, "release", "llsym")


def entries(helpers):
    fns = set()
    for f in glob.glob(os.path.join(V, "harness", "src", "props", "*.rs")):
        if os.path.basename(f) == "helpers.rs" and not helpers:
            continue
        fns |= set(re.findall(r"extern \"C\" fn (h_[a-z0-9_]+)", open(f).read()))
    return sorted(fns)


def build_ir(helpers):
    name = "h" if helpers else "n"
    t = os.path.join(V, "harness", "target", name)
    d = os.path.join(t, "release", "deps")
    for f in glob.glob(os.path.join(d, "vharness*.bc")):
        os.unlink(f)
    src = os.path.join(V, "harness", "src", "lib.rs")
    os.utime(src)  # the bit code is taken from a compilation of this run
    feat = ["--features", "helpers"] if helpers else []
    sh(["cargo", "rustc", "--offline", "--release"] + feat + ["--", "--emit=llvm-ir", "-C", "save-temps"],
       os.path.join(V, "harness"), os.path.join(W, "ir.log"), dict(ENV, CARGO_TARGET_DIR=t))
    bc = [f for f in glob.glob(os.path.join(d, "vharness.vharness.*.rcgu.bc")) if "no-opt" not in f and "lto" not in f]
    if not bc:
        raise Fail("no bit code")
    bc.sort(key=os.path.getmtime)
    root = subprocess.run(["rustc", "--print", "sysroot"], env=ENV, capture_output=True, text=True).stdout.strip()
    opt = glob.glob(os.path.join(root, "lib/rustlib/*/bin/opt"))
    if not opt:
        raise Fail("no opt")
    out = os.path.join(W, "h.ll")
    sh([opt[0], "-strip-debug", "-passes=internalize,globaldce,scalarizer",
        "-internalize-public-api-list=" + ",".join(entries(helpers)), bc[-1], "-S", "-o", out], W, os.path.join(W, "opt.log"))
    return out


def build_replay(helpers):
    t = os.path.join(V, "replay", "target", "h" if helpers else "n")
    feat = ["--features", "helpers"] if helpers else []
    sh(["cargo", "build", "--offline", "--release"] + feat, os.path.join(V, "replay"), os.path.join(W, "replay.log"), dict(ENV, CARGO_TARGET_DIR=t))
    return os.path.join(t, "release", "libvreplay.so")


def native(so, entry, model, secs=20):
    """Runs one model natively. -> (kind, [failed ids], [observations], output)"""
    try:
        p = subprocess.run([sys.executable, os.path.join(V, "check", "native.py"), so, entry, model],
                           capture_output=True, text=True, errors="replace", timeout=secs, cwd=W)
    except subprocess.TimeoutExpired:
        return "hang", [], [], "no end within %d s" % secs
    obs, bad = [], []
    for l in p.stdout.splitlines():
        if l.startswith("OBS "):
            obs.append(l[4:])
        elif l.startswith("ASSERT-FAILED "):
            bad.append(l[14:])
    out = (p.stdout[-3000:] + p.stderr[-1500:])
    if p.returncode == 78:
        return "assume", bad, obs, out
    if p.returncode < 0:
        return "panic", bad, obs, out
    if p.returncode or "REPLAY-ERROR" in p.stdout:
        return "error", bad, obs, out
    if bad:
        return "assert", bad, obs, out
    return "ok", bad, obs, out


def known_findings(prop):
    f = os.path.join(V, "KNOWN_FINDINGS")
    r = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) job=\[([^\]]*)\] id=\[([^\]]*)\] (.*)", l)
            if m and m.group(1) == prop:
                r.append((m.group(2).split(), m.group(3), m.group(4).strip()))
    return r


def main():
    global W
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    joblist, bounds = jobspec.jobs(prop, tier, seed)
    # the thorough tier runs the jobs of the quick tier first, then as many of its own as its time allows
    extra = set()
    if tier != "quick":
        base = {(e, tuple(p)) for e, p in jobspec.jobs(prop, "quick", seed)[0]}
        extra = {(e, tuple(p)) for e, p in joblist if (e, tuple(p)) not in base}
        joblist = [j for j in joblist if (j[0], tuple(j[1])) not in extra] + [j for j in joblist if (j[0], tuple(j[1])) in extra]
        extra = {" ".join([e] + [str(x) for x in p]) for e, p in extra}
    helpers = prop.startswith("T")
    os.makedirs(os.path.join(V, "evidence", "replays"), exist_ok=True)
    ev = os.path.join(V, "evidence", prop + ".json")
    if os.path.exists(ev):
        os.unlink(ev)
    tmp = tempfile.TemporaryDirectory(prefix="vcheck-%s-" % prop)
    W = tmp.name
    lock = open(os.path.join(V, "check", ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    with cf.ThreadPoolExecutor(3) as ex:
        a, b, c = ex.submit(build_engine), ex.submit(build_ir, helpers), ex.submit(build_replay, helpers)
        engine, ir, so = a.result(), b.result(), c.result()
    fcntl.flock(lock, fcntl.LOCK_UN)
    build_s = time.time() - t0

    total = 450 if tier == "quick" else 600
    jf = os.path.join(W, "jobs")
    with open(jf, "w") as f:
        for i, (e, p) in enumerate(joblist):
            f.write("%d %s %s\n" % (i, e, " ".join(map(str, p))))
    t1 = time.time()
    cmd = [engine, ir, jf, "--threads", str(max(os.cpu_count() or 1, 2)), "--samples", "1", "--seed", str(seed),
           "--job-secs", str(total if tier == "quick" else 240), "--total-secs", str(total), "--timeout-ms", "120000"]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=open(os.path.join(W, "err"), "wb"), text=True, cwd=W)
    res, violations, errors, notes = [], [], [], []
    kf = known_findings(prop)
    seen_kf = set()
    known = []
    unreproduced = []

    def handle_violation(r):
        job = r["entry"].split()
        for v in r["violations"]:
            name = "%s-%s" % (prop, hashlib.sha256((r["entry"] + v["id"]).encode()).hexdigest()[:10])
            path = os.path.join(V, "evidence", "replays", name + ".model")
            with open(path, "w") as f:
                f.write("# %s %s\n# %s: %s\n" % (job[1], " ".join(job[2:]), v["kind"], v["id"]))
                f.write("\n".join(v["model"]) + "\n")
            kind, bad, _, out = native(so, job[1], path)
            if kind in ("assert", "panic", "hang"):
                for i, (j, vid, what) in enumerate(kf):
                    if j == job[1:] and any(b.startswith(vid) for b in bad + [v["id"]]):
                        if i not in seen_kf:
                            seen_kf.add(i)
                            known.append((prop, what))
                        break
                else:
                    violations.append((v["kind"], v["id"], path, kind, bad, job[1:], out))
            else:
                unreproduced.append("%s: counterexample to %s (%s) does not reproduce natively (%s): %s" % (
                    r["entry"], v["id"], v["kind"], kind, out[-300:]))

    def handle_probes(r):
        """The exploration gave up on a path: run the solver's models of that path natively."""
        job = r["entry"].split()
        for k, lines in enumerate(r.get("probes", [])):
            name = "%s-%s" % (prop, hashlib.sha256((r["entry"] + "probe%d" % k).encode()).hexdigest()[:10])
            path = os.path.join(V, "evidence", "replays", name + ".model")
            with open(path, "w") as f:
                f.write("# %s %s\n# model of an undecided path (%s)\nseed %d\n" % (
                    job[1], " ".join(job[2:]), r["status"][:200].replace("\n", " "), seed * 1000 + k + 1))
                f.write("\n".join(lines) + "\n")
            kind, bad, _, out = native(so, job[1], path, 60)
            if kind in ("assert", "panic", "hang"):
                if not any(j == job[1:] and any(b.startswith(vid) for b in bad) for j, vid, _ in kf):
                    violations.append((kind, bad[0] if bad else "panic", path, kind, bad, job[1:], out))
                    return
            os.unlink(path)

    stop_at = None
    probed = 0
    cut = []
    for l in p.stdout:
        try:
            r = json.loads(l)
        except ValueError:
            continue
        res.append(r)
        if r["status"] == "violation":
            handle_violation(r)
            if violations and stop_at is None:
                stop_at = time.time()
                p.kill()
        elif r["status"] != "ok":
            if r["entry"].split(" ", 1)[1] in extra and re.search("deadline exceeded|solver gave no answer", r["status"]):
                cut.append(r["entry"].split(" ", 1)[1])
            else:
                errors.append("%s: %s" % (r["entry"], r["status"]))
            if not violations and probed < 40:
                probed += 1
                handle_probes(r)
                if violations:
                    p.kill()
    p.wait()
    run_s = time.time() - t1
    if not violations:
        if len(res) != len(joblist):
            errors.append("%d of %d jobs gave a result; %s" % (len(res), len(joblist), open(os.path.join(W, "err"), errors="replace").read()[-500:]))

    # vacuity: every job reaches its end on some feasible path and checks something
    # (a job split by fixed choices counts as one)
    whole = collections.defaultdict(list)
    for r in res:
        whole[" ".join(x for x in r["entry"].split()[1:] if x[0] != "@")].append(r)
    for k, rs in whole.items():
        if all(r["status"] == "ok" for r in rs) and not any(r["covers"].get("end") and r["asserts"] and r["paths"] for r in rs):
            errors.append("%s: nothing was checked" % k)

    # the encoding against the real code: every job's sample is run natively
    validated, mism, picked, todo = 0, [], [], []
    for r in res:
        for k, s in enumerate(r["samples"]):
            f = os.path.join(W, "s%s_%d" % (r["job"], k))
            with open(f, "w") as g:
                g.write("\n".join(s["model"]) + "\n")
            todo.append((r, s, f))
    if not violations:
        lim = 60 if tier == "quick" else 400
        step = max(1, (len(todo) + lim - 1) // lim)
        todo = todo[seed % step::step]

        def one(t):
            return t, native(so, t[0]["entry"].split()[1], t[2])

        with cf.ThreadPoolExecutor(os.cpu_count() or 2) as ex:
            for (r, s, f), (kind, bad, obs, out) in ex.map(one, todo):
                if kind == "ok" and obs == s["obs"]:
                    validated += 1
                    if len(picked) < 4 and len(s["model"]) < 60:
                        picked.append({"job": r["entry"], "input": s["model"][:14], "observed": obs[:3]})
                else:
                    mism.append("%s: native run differs from the encoding (%s %s): %s" % (r["entry"], kind, bad[:2], out[-400:]))
        errors += mism
        errors += unreproduced

    tot = collections.Counter()
    fns, asserts = set(), collections.Counter()
    for r in res:
        for k in ("steps", "paths", "forks", "merges", "asserts_struct", "asserts_smt", "queries", "sat", "unsat", "unknown", "cached", "fast", "solver_secs"):
            tot[k] += r[k]
        fns |= set(r["functions"])
        asserts.update(r["asserts"])
    mine = sorted(f for f in fns if "fuel_merkle" in f)
    cov = {
        "states": tot["paths"],
        "transitions": tot["steps"],
        "traces_validated_against_impl": validated,
        "samples": picked or [{"job": r["entry"], "input": s["model"][:14]} for r in res for s in r["samples"]][:3] or [{"none": "no path completed"}],
        "what": "states = symbolic paths completed; transitions = LLVM IR instructions executed symbolically; "
                "traces validated = models of completed paths run natively with real SHA-256 with the same observations",
        "bounds": bounds,
        "jobs": len(joblist),
        "jobs_finished": len(res) - len(cut),
        "jobs_out_of_time": sorted(cut)[:200],
        "functions_encoded": mine,
        "functions_encoded_other": len(fns) - len(mine),
        "assertions": dict(sorted(asserts.items())),
        "assertions_decided_by_term_equality": tot["asserts_struct"],
        "assertions_decided_by_solver": tot["asserts_smt"],
        "solver": "z3-new (z3 5)",
        "queries": tot["queries"],
        "queries_sat": tot["sat"],
        "queries_unsat": tot["unsat"],
        "queries_unknown": tot["unknown"],
        "queries_answered_from_cache": tot["cached"],
        "queries_decided_before_solver": tot["fast"],
        "solver_s": round(tot["solver_secs"], 3),
        "slowest_query_s": max([r["max_query"] for r in res] or [0]),
        "forks": tot["forks"],
        "merges": tot["merges"],
        "build_s": round(build_s, 2),
        "explore_s": round(run_s, 2),
    }
    json.dump({
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }, open(ev, "w"), indent=1)
    print("%s %s: %d jobs, %d paths, %d instructions, %d assertions by term equality, %d by solver, %d queries (%.1f s), "
          "%d samples validated, build %.1f s, run %.1f s" % (
              prop, tier, len(res), tot["paths"], tot["steps"], tot["asserts_struct"], tot["asserts_smt"], tot["queries"],
              tot["solver_secs"], validated, build_s, run_s))
    for k, what in known:
        print("KNOWN-FINDING: property=%s %s" % (k, what))
    if violations:
        kind, vid, path, nk, bad, job, out = violations[0]
        print("%s: %s %s; native: %s %s" % (" ".join(job), kind, vid, nk, " | ".join(bad)[:400]))
        print(out[-600:])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors[:10]:
            print("NO ANSWER: " + e[:1200])
        print("(%d in all)" % len(errors))
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Fail as e:
        print("NO ANSWER: %s" % e)
        sys.exit(2)
