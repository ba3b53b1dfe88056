#!/usr/bin/env python3
"""Decides one property: check.py <property id> [quick|thorough]

Builds the symbolic executor (nsym), compiles the harness crate together with nmea-parser from
/repo's working tree to LLVM IR, executes the property's harnesses symbolically, replays
counterexamples and cover witnesses natively, and writes evidence/<id>.json.
exit 0: held; 1: violated (VIOLATION line); 2: no answer (build or engine failure)
"""
import concurrent.futures as cf
import json, os, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NMEA_REPO", "/repo")
T0 = time.time()
BUDGET = {"quick": 820, "thorough": 6 * 3600}

def log(*a):
    print(*a, flush=True)

def die(msg):
    log("ERROR:", msg)
    sys.exit(2)

def env(build):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=build, CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout

def harness_dir(build):
    """the harness crates, pointed at the tree under test"""
    src = os.path.join(HERE, "harness")
    if REPO == "/repo":
        return src
    dst = os.path.join(build, "harness")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    for k in ("sym", "native"):
        p = os.path.join(dst, k, "Cargo.toml")
        s = open(p).read().replace('path = "/repo"', 'path = "%s"' % REPO)
        open(p, "w").write(s)
    return dst

def build_engine(build):
    out = os.path.join(build, "nsym")
    src = [os.path.join(HERE, "nsym", f) for f in sorted(os.listdir(os.path.join(HERE, "nsym")))]
    if os.path.exists(out) and all(os.path.getmtime(f) < os.path.getmtime(out) for f in src):
        return out
    rc, o = run(["rustc", "--edition", "2021", "-C", "opt-level=3", "-C", "codegen-units=16", "-A", "warnings",
                 os.path.join(HERE, "nsym", "main.rs"), "-o", out, "-l", "z3"], env=env(build))
    if rc != 0:
        die("engine build failed\n" + o[-3000:])
    return out

def build_ir(build, hd):
    """LLVM IR of harness, nmea-parser, its dependencies and the used part of std"""
    t = os.path.join(build, "sym")
    ll = os.path.join(t, "release", "deps", "h.ll")
    if os.path.exists(ll):
        os.remove(ll)
    os.utime(os.path.join(hd, "src", "lib.rs"))
    rc, o = run(["cargo", "rustc", "--release", "--offline", "--", "--emit=llvm-ir", "-C", "save-temps"],
                cwd=os.path.join(hd, "sym"), env=env(t))
    if rc != 0 or not os.path.exists(ll):
        die("IR build failed\n" + o[-3000:])
    return ll

def build_native(build, hd):
    t = os.path.join(build, "native")
    rc, o = run(["cargo", "build", "--offline"], cwd=os.path.join(hd, "native"), env=env(t))
    if rc != 0:
        die("native build failed\n" + o[-3000:])
    return os.path.join(t, "debug", "replay")

def limit():
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def sym_run(nsym, ll, h, opts, build, secs):
    out = os.path.join(build, "out-%s.json" % h)
    if os.path.exists(out):
        os.remove(out)
    cmd = [nsym, ll, h, "--time", str(int(secs)), "--out", out] + opts
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, preexec_fn=limit)
    t0 = time.time()
    while True:
        try:
            rc, err = p.returncode, p.communicate(timeout=1)[1]
            rc = p.returncode
            break
        except subprocess.TimeoutExpired:
            # after a first counterexample the other harnesses get a short while only
            if STOP and time.time() > STOP[0] + 15 or time.time() > t0 + secs + 60:
                p.kill()
                p.communicate()
                if STOP:
                    return {"harness": h, "stopped": True, "errors": [], "violations": [], "checks": {"stopped": 0}, "covers": {}, "knowns": {}}
                rc, err = 4, "time limit"
                break
    if os.path.exists(out):
        r = json.load(open(out))
        if r["violations"] and not STOP:
            STOP.append(time.time())
        return r
    else:
        return {"harness": h, "errors": ["engine ended with %s: %s" % (rc, err[-600:])], "violations": [], "checks": {}, "covers": {}, "knowns": {}}

STOP = []

def replay(native, h, hexbytes):
    try:
        p = subprocess.run([native, h, hexbytes], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                           env=dict(os.environ, RUST_BACKTRACE="0"))
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return -99, "", "no result within 60 s"

def demangle(names):
    if not names:
        return []
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return p.stdout.split("\n")
    except OSError:
        return names

def known_findings():
    r = set()
    p = os.path.join(HERE, "known-findings.txt")
    for l in open(p):
        if l.startswith("finding:"):
            f = dict(x.split("=", 1) for x in l.split()[1:3])
            r.add((f["property"], f["id"]))
    return r

def main():
    prop = sys.argv[1]
    if prop == "--setup":
        build = os.path.join(HERE, ".build")
        os.makedirs(build, exist_ok=True)
        build_engine(build)
        log("engine built in %.1f s; the rest is built by each check from /repo's tree" % (time.time() - T0))
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = json.load(open(os.path.join(HERE, "checks.json")))
    P = spec["properties"][prop]
    hs = [h for h in P["harnesses"] if tier == "thorough" or h.get("tier", "quick") == "quick"]
    build = os.environ.get("NSYM_BUILD", os.path.join(HERE, ".build"))
    os.makedirs(build, exist_ok=True)
    hd = harness_dir(build)
    with cf.ThreadPoolExecutor(3) as ex:
        a, b, c = ex.submit(build_engine, build), ex.submit(build_ir, build, hd), ex.submit(build_native, build, hd)
        nsym, ll, native = a.result(), b.result(), c.result()
    tb = time.time() - T0
    # selected harnesses, longest first
    left = BUDGET[tier] - tb
    jobs = sorted(hs, key=lambda h: -h.get("cost", 1))
    with cf.ThreadPoolExecutor(8) as ex:
        fut = {h["name"]: ex.submit(sym_run, nsym, ll, h["name"], h.get("opts", []), build, left) for h in jobs}
        res = {h: f.result() for h, f in fut.items()}
    os.remove(ll)

    listed = known_findings()
    violations, errors, notes, samples, reported = [], [], [], [], set()
    rdir = os.path.join(HERE, "replay")
    os.makedirs(rdir, exist_ok=True)
    traces = 0
    for h in hs:
        n = h["name"]
        r = res[n]
        for v in r["violations"]:
            rc, so, se = replay(native, n, v["bytes"])
            sent = [l[9:] for l in so.split("\n") if l.startswith("SENTENCE ")]
            if rc in (1, 101, 134, -6, -11, -99) and rc is not None:
                path = os.path.join(rdir, "%s-%s-%d.json" % (prop, n, len(violations)))
                json.dump({"property": prop, "harness": n, "check": v["id"], "kind": v["kind"], "model": v["bytes"],
                           "sentences": sent, "native_exit": rc, "native_stdout": so[-4000:], "native_stderr": se[-2000:],
                           "symbolic_backtrace": v["trace"],
                           "command": "cd /verif/harness/native && CARGO_TARGET_DIR=/tmp/replay-build cargo run --offline -- %s %s" % (n, v["bytes"])},
                          open(path, "w"), indent=1)
                violations.append((n, v["id"], path, sent, se.strip().split("\n")[0] if rc == 101 else ""))
                traces += 1
            else:
                errors.append("%s: counterexample for '%s' does not replay (native exit %s): model %s\n%s%s" % (n, v["id"], rc, v["bytes"], so[-800:], se[-400:]))
        for k, m in r["knowns"].items():
            rc, so, se = replay(native, n, m)
            if rc not in (1, 2) or ("KNOWN " + k) not in so:
                errors.append("%s: known finding '%s' does not replay (native exit %s)" % (n, k, rc))
                continue
            traces += 1
            sent = [l[9:] for l in so.split("\n") if l.startswith("SENTENCE ")]
            if (prop, k) in listed:
                if k not in reported:
                    reported.add(k)
                    notes.append("KNOWN-FINDING: property=%s %s: e.g. %s" % (prop, k, sent[-1] if sent else m))
            else:
                path = os.path.join(rdir, "%s-%s-%d.json" % (prop, n, len(violations)))
                json.dump({"property": prop, "harness": n, "check": k, "model": m, "sentences": sent}, open(path, "w"), indent=1)
                violations.append((n, k, path, sent, ""))
        for e in r["errors"]:
            errors.append("%s: %s" % (n, e[:1500]))
        if r.get("unknown", 0):
            errors.append("%s: %d solver queries without an answer" % (n, r["unknown"]))
        for c in h.get("covers", []):
            if c not in r["covers"] and not r["violations"] and not r["errors"] and not r.get("stopped"):
                errors.append("%s: '%s' is never reached" % (n, c))
        for c, m in sorted(r["covers"].items()):
            rc, so, se = replay(native, n, m)
            if rc in (0, 1, 2, 101) and ("COVER " + c + "\n") in so:
                traces += 1
                sent = [l[9:] for l in so.split("\n") if l.startswith("SENTENCE ")]
                if len(samples) < 40:
                    samples.append({"harness": n, "reaches": c, "sentences": sent})
                if rc in (1, 101) and not r["violations"]:
                    # the witness of a cover shows a failure the encoding does not
                    errors.append("%s: witness of '%s' fails natively: %s" % (n, c, (so + se)[-600:]))
            else:
                errors.append("%s: witness of '%s' does not replay (native exit %s) %s" % (n, c, rc, (so + se)[-300:]))
        if not r["checks"] and not r["violations"] and not r["errors"]:
            errors.append("%s: no check reached" % n)

    fns = sorted(set(x for x in demangle(sorted(set(f for r in res.values() for f in r.get("fns", [])))) if "nmea_parser" in x))
    tot = lambda k: sum(r.get(k, 0) for r in res.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("forks") + tot("paths"),
            "transitions": tot("insts"),
            "traces_validated_against_impl": traces,
            "samples": samples,
            "explanation": "states: symbolic states created (path forks + completed paths, before merging); transitions: LLVM instructions executed "
                           "symbolically; traces: models (cover witnesses, known findings, counterexamples) re-run natively against the same tree",
            "exhaustive": not errors and not violations,
            "bounds": P["bounds"],
            "outside": P.get("outside", ""),
            "functions_encoded": fns,
            "functions_encoded_note": "functions that remain in the optimised IR; callees inlined by rustc are encoded as part of them",
            "functions_encoded_total": max([r.get("fns_total", 0) for r in res.values()] or [0]),
            "assertions_discharged": sum(sum(r["checks"].values()) for r in res.values()),
            "solver": {"z3_queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "seconds": round(tot("solver_s"), 3),
                       "max_query_s": max([r.get("max_query_s", 0) for r in res.values()] or [0]),
                       "decided_by_finite_domain_reasoning": tot("by_domain"), "decided_by_rewriting": tot("by_rewrite")},
            "harnesses": [{k: res[h["name"]].get(k) for k in ("harness", "total_s", "paths", "forks", "merges", "insts", "queries", "solver_s", "checks")} for h in hs],
            "known_findings_seen": sorted(reported),
        },
        "assumptions": spec["assumptions"] + P.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

    for h in hs:
        r = res[h["name"]]
        log("%-18s %6.2f s  paths %s  checks %s  queries %s (%.2f s)" % (h["name"], r.get("total_s", 0), r.get("paths"), sum(r["checks"].values()), r.get("queries"), r.get("solver_s", 0)))
    for n in notes:
        log(n)
    for e in errors:
        log("ERROR:", e)
    for n, i, path, sent, why in violations:
        log("  %s: '%s' fails %s on %s" % (n, i, why, sent[-3:]))
    if violations:
        for n, i, path, sent, why in violations:
            log("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if errors:
        sys.exit(2)
    log("held: property=%s wall %.1f s" % (prop, time.time() - T0))
    sys.exit(0)

main()
