#!/usr/bin/env python3
"""Decides one property: builds the harness together with /repo's working tree, executes
it symbolically with sx, replays what sx reports against the natively compiled code.

  run.py PROPERTY            tier from VERIF_TIER (quick by default)
  run.py --replay FILE       run a recorded counterexample natively
  run.py --setup             build everything once
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
WORK = os.path.join(VERIF, "work")
SX = os.path.join(WORK, "sx", "release", "sx")
CORES = 8
sys.path.insert(0, VERIF)
from plan import PROPS, CRATES, SHARDS, ASSUMPTIONS  # noqa: E402

T0 = time.time()


class Broken(Exception):
    """The check itself could not give an answer."""


def log(*a):
    print(*a, flush=True)


def sh(cmd, cwd=VERIF, env=None, timeout=800):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def build_engine():
    rc, out = sh(["cargo", "build", "--offline", "--release", "--target-dir", os.path.join(WORK, "sx")], cwd=os.path.join(VERIF, "sx"))
    if rc:
        raise Broken("engine build failed:\n" + out[-3000:])


class CompileFailure(Exception):
    def __init__(self, crate, out):
        self.crate, self.out = crate, out


def prepare(crate):
    """Regenerates the generated part of a harness crate from /repo's current source."""
    gen = CRATES[crate].get("generate")
    if gen:
        rc, out = sh([sys.executable, os.path.join(VERIF, gen)])
        if rc:
            raise Broken("generating %s failed:\n%s" % (crate, out[-3000:]))


def repo_hash():
    import hashlib
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".md")):
                p = os.path.join(base, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def forget_stale():
    """Builds are redone whenever /repo's content differs from what was built (whatever its time stamps say)."""
    h = repo_hash()
    rec = os.path.join(WORK, "repo.hash")
    if os.path.exists(rec) and open(rec).read() == h:
        return
    for tgt in ("ir/release", "native/debug", "plain/debug"):
        d = os.path.join(WORK, tgt, ".fingerprint")
        if os.path.isdir(d):
            for f in os.listdir(d):
                if f.startswith(("opg-", "opg_derive-")):
                    shutil.rmtree(os.path.join(d, f), ignore_errors=True)
    os.makedirs(WORK, exist_ok=True)
    with open(rec, "w") as f:
        f.write(h)


def crate_dir(crate):
    return os.path.join(VERIF, CRATES[crate].get("dir", "hx/" + crate))


def build_ir(crate):
    d = crate_dir(crate)
    tgt = os.path.join(WORK, "ir")
    rc, out = sh(["cargo", "rustc", "--offline", "--release", "--lib", "--crate-type", "cdylib", "--target-dir", tgt, "--", "--emit=llvm-ir", "-Cno-vectorize-loops", "-Cno-vectorize-slp"], cwd=d)
    if rc:
        raise CompileFailure(crate, out)
    ll = os.path.join(tgt, "release", "deps", "hx_%s.ll" % crate)
    if not os.path.exists(ll):
        raise Broken("no IR at " + ll)
    return ll


def build_native(crate):
    d = crate_dir(crate)
    tgt = os.path.join(WORK, "native")
    rc, out = sh(["cargo", "build", "--offline", "--profile", "dev", "--features", "native", "--target-dir", tgt], cwd=d)
    if rc:
        raise CompileFailure(crate, out)
    return os.path.join(tgt, "debug", "hx_" + crate)


def entries_of(ll, prefix):
    names = []
    with open(ll, errors="replace") as f:
        for line in f:
            if line.startswith("define"):
                m = re.search(r"@(%s_\w+)\(" % prefix, line)
                if m:
                    names.append(m.group(1))
    return sorted(names)


def run_sx(ll, entry, shard, n, tier, secs):
    out = os.path.join(WORK, "out", "%s.%d.json" % (entry, shard))
    if os.path.exists(out):
        os.remove(out)
    cmd = [SX, ll, entry, "--out", out, "--tier", str(tier), "--secs", "%d" % secs, "--shard", "%d/%d" % (shard, n), "--shard-depth", "4",
           "--samples", "12" if n == 1 else "4", "--sample-queries", "5"]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 60)
    except subprocess.TimeoutExpired:
        raise Broken("%s shard %d: engine exceeded its time" % (entry, shard))
    if not os.path.exists(out):
        raise Broken("%s shard %d: engine ended with %s: %s" % (entry, shard, p.returncode, p.stdout.decode("utf8", "replace")[-2000:]))
    return json.load(open(out))


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_native(exe, entry, tier, inputs, timeout=30):
    try:
        p = subprocess.run([exe, entry, str(tier)] + [str(i) for i in inputs], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limits, env=dict(os.environ, RUST_BACKTRACE="0"))
    except subprocess.TimeoutExpired:
        return {"rc": "timeout", "fail": [], "obs": [], "checks": 0, "end": False, "err": "", "tag": "", "out": ""}
    o = p.stdout.decode("utf8", "replace").split("\n")
    return {
        "rc": p.returncode,
        "fail": [l[5:] for l in o if l.startswith("FAIL ")],
        "obs": [int(l[4:]) for l in o if l.startswith("OBS ")],
        "checks": sum(1 for l in o if l.startswith("CHECK ")),
        "end": any(l.startswith("END ") for l in o),
        "allow": ([l for l in o if l.startswith("ALLOW-PANIC ")] or [""])[-1] == "ALLOW-PANIC true",
        "tag": ([l[4:] for l in o if l.startswith("TAG ")] or [""])[-1],
        "panicked": b"panicked at" in p.stderr,
        "err": p.stderr.decode("utf8", "replace")[-1500:],
    }


def reproduces(v, r):
    if v["check"] == "panic":
        return (not r["end"]) and r.get("panicked", False)
    if v["check"] == "nontermination":
        return r["rc"] == "timeout" or (isinstance(r["rc"], int) and r["rc"] < 0)
    return v["check"] in r["fail"]


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    for line in open(p):
        m = re.match(r"known: property=(\w+) check=(kf\.\S+) (.*)", line.strip())
        if m:
            out[(m.group(1), m.group(2))] = m.group(3)
    return out


def crosscheck(samples, budget):
    """Re-decides sampled queries with two other solvers."""
    n = dis = 0
    t1 = time.time()
    tmp = os.path.join(WORK, "out", "q%d.smt2" % os.getpid())
    by = {}
    for s in samples:
        if time.time() - t1 > budget:
            break
        with open(tmp, "w") as f:
            f.write("(set-logic QF_BV)\n" + s["smt2"] + "\n(check-sat)\n")
        want = "sat" if s["sat"] else "unsat"
        for solver in (["cvc5", "--lang", "smt2", "--tlimit=10000"], ["z3-new", "-T:10"]):
            if shutil.which(solver[0]) is None:
                continue
            try:
                p = subprocess.run(solver + [tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
            except subprocess.TimeoutExpired:
                continue
            got = p.stdout.decode().strip().split("\n")[0]
            if got in ("sat", "unsat"):
                n += 1
                by[solver[0]] = by.get(solver[0], 0) + 1
                if got != want:
                    dis += 1
    if os.path.exists(tmp):
        os.remove(tmp)
    return n, dis, by


def compile_violation(prop, cfail, tier, spec):
    """A declaration that compiles on the pinned tree no longer does."""
    rc, out = sh(["cargo", "build", "--offline", "--target-dir", os.path.join(WORK, "plain"), "-p", "opg", "--features", "uuid,chrono"], cwd=REPO)
    if rc:
        raise Broken("/repo does not build:\n" + out[-2000:])
    if not CRATES[cfail.crate].get("declarations"):
        raise Broken("harness %s does not compile against /repo:\n%s" % (cfail.crate, cfail.out[-4000:]))
    # which declarations? a property is only blamed for its own
    errs = cfail.out
    blocks = re.split(r"\n(?=error)", errs)
    mine = []
    for b in blocks:
        if not b.startswith("error"):
            continue
        m = re.search(r"--> ([^\s:]+):(\d+)", b)
        f = os.path.basename(m.group(1)) if m else ""
        if f.startswith(prop.lower()) or f.startswith(tuple(x.lower() for x in spec.get("shares", []))):
            mine.append(b)
    if not mine:
        return None, errs
    return mine, errs


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        os.makedirs(os.path.join(WORK, "out"), exist_ok=True)
        forget_stale()
        build_engine()
        for c in CRATES:
            prepare(c)
            log(build_ir(c))
            log(build_native(c))
        return 0
    prop = sys.argv[1]
    spec = PROPS[prop]
    tier_name = os.environ.get("VERIF_TIER", "quick")
    if tier_name not in ("quick", "thorough"):
        tier_name = "quick"
    tier = 1 if tier_name == "thorough" else 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    total = 840 if tier == 0 else int(os.environ.get("VERIF_BUDGET", "7200"))
    os.makedirs(os.path.join(WORK, "out"), exist_ok=True)
    os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for f in os.listdir(os.path.join(WORK, "replay")):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(WORK, "replay", f))

    # ---- build from the working tree
    forget_stale()

    def chain(fn):
        r = {}
        for c in spec["crates"]:
            r[c] = fn(c)
        return r

    try:
        for c in spec["crates"]:
            prepare(c)
        with cf.ThreadPoolExecutor(3) as ex:
            f0 = ex.submit(build_engine)
            f1 = ex.submit(chain, build_ir)
            f2 = ex.submit(chain, build_native)
            f0.result()
            irs, exes = f1.result(), f2.result()
    except CompileFailure as c:
        mine, errs = compile_violation(prop, c, tier, spec)
        path = os.path.join(WORK, "replay", "%s-compile.txt" % prop)
        with open(path, "w") as f:
            f.write("\n".join(mine) if mine else errs)
        evidence(prop, spec, tier_name, seed, [], {}, [], 0, 0, (0, 0, {}), 1 if mine else 0, {}, note="harness declarations rejected by the compiler")
        if mine:
            log("the following declarations, accepted on the pinned tree, no longer compile:")
            log("\n".join(mine)[:3000])
            log("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        raise Broken("declarations of another property do not compile:\n" + errs[-3000:])
    build_s = time.time() - T0
    log("built in %.1f s" % build_s)

    # ---- symbolic execution
    jobs = []
    per_entry = {}
    for c in spec["crates"]:
        es = entries_of(irs[c], prop.lower())
        if not es and not spec.get("optional"):
            raise Broken("no entry for %s in %s" % (prop, c))
        for e in es:
            n = SHARDS.get(e, (1, 8))[tier]
            per_entry[e] = {"crate": c, "shards": n, "results": []}
            for i in range(n):
                jobs.append((c, e, i, n))
    # sharded (long) ones first
    jobs.sort(key=lambda j: -j[3])
    results, broken = [], []
    with cf.ThreadPoolExecutor(CORES) as ex:
        def one(j):
            c, e, i, n = j
            left = total - (time.time() - T0) - 60
            if left < 5:
                raise Broken("%s: no time left" % e)
            return run_sx(irs[c], e, i, n, tier, left)
        fs = {ex.submit(one, j): j for j in jobs}
        for f in cf.as_completed(fs):
            c, e, i, n = fs[f]
            try:
                r = f.result()
            except Broken as b:
                broken.append(str(b))
                continue
            r["crate"] = c
            results.append(r)
            per_entry[e]["results"].append(r)

    # ---- replay of what was found
    known = known_findings()
    violations, unreproduced, kf_seen = [], [], {}
    for r in results:
        for v in r["violations"]:
            nat = run_native(exes[r["crate"]], r["entry"], tier, v["inputs"])
            rec = {"property": prop, "crate": r["crate"], "entry": r["entry"], "tier": tier, "inputs": v["inputs"], "check": v["check"],
                   "detail": v["detail"], "tag": v["tag"], "symbolic_trace": v["trace"], "native": nat}
            if not reproduces(v, nat):
                unreproduced.append(rec)
                continue
            if v["check"].startswith("kf."):
                k = v["check"].split(" ")[0]
                if (prop, k) in known:
                    kf_seen.setdefault(k, rec)
                    continue
            violations.append(rec)

    # ---- sampled paths against the implementation
    validated = mismatched = 0
    mism = []
    samples_out = []
    todo = [(r, s) for r in results for s in r["samples"]]
    cap = 160 if tier == 0 else 1000
    if len(todo) > cap:
        step = len(todo) / cap
        todo = [todo[int(i * step)] for i in range(cap)]
    with cf.ThreadPoolExecutor(CORES) as ex:
        runs = list(ex.map(lambda rs: run_native(exes[rs[0]["crate"]], rs[0]["entry"], tier, rs[1]["inputs"]), todo))
    for (r, s), nat in zip(todo, runs):
        ok = nat["obs"] == s["obs"] and (nat["end"] or nat["allow"]) and nat["checks"] + len([f for f in nat["fail"] if f.startswith("kf.")]) == s["checks"]
        if ok:
            validated += 1
            if len(samples_out) < 6 and not any(x["entry"] == r["entry"] for x in samples_out):
                samples_out.append({"entry": r["entry"], "inputs": s["inputs"], "observations": s["obs"][:40]})
        else:
            mismatched += 1
            mism.append({"entry": r["entry"], "inputs": s["inputs"], "symbolic": s["obs"], "native": nat, "checks": s["checks"]})
    smt = [q for r in results for q in r["smt_samples"]]
    if len(smt) > 12 and tier == 0:
        smt = smt[:: max(1, len(smt) // 12)][:12]
    cross = crosscheck(smt[:400], 15 if tier == 0 else 120)

    evidence(prop, spec, tier_name, seed, results, per_entry, samples_out, validated, mismatched, cross, len(violations), kf_seen, build_s=build_s)

    for k, rec in sorted(kf_seen.items()):
        log("KNOWN-FINDING: property=%s %s (%s %s)" % (prop, known[(prop, k)], rec["entry"], rec["inputs"]))
    tot = {k: sum(r[k] for r in results) for k in ("paths", "forks", "infeasible", "steps")}
    log("%s: %d entries, %d paths, %d branch decisions, %d infeasible, %d solver queries, %d sampled paths replayed natively, %d queries re-decided" % (
        prop, len(per_entry), tot["paths"], tot["forks"], tot["infeasible"], sum(r["solver"]["queries"] for r in results), validated, cross[0]))
    if violations:
        seen = set()
        for i, rec in enumerate(violations):
            key = (rec["entry"], rec["check"])
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(WORK, "replay", "%s-%d.json" % (prop, i))
            json.dump(rec, open(path, "w"), indent=1)
            log("violated: %s [%s] inputs %s %s %s" % (rec["check"], rec["entry"], rec["inputs"], rec["tag"], rec["detail"][:300]))
            log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    errs = broken + [e for r in results for e in r["errors"]]
    if unreproduced:
        u = unreproduced[0]
        errs.append("counterexample not reproduced natively: %s %s %s native=%s" % (u["entry"], u["check"], u["inputs"], u["native"]))
    if mismatched:
        errs.append("native run differs from the symbolic path: " + json.dumps(mism[0])[:1500])
    if cross[1]:
        errs.append("solvers disagree on %d queries" % cross[1])
    # a harness whose checks are never reached decides nothing
    for e, pe in per_entry.items():
        if sum(r["paths"] for r in pe["results"]) == 0:
            errs.append("%s: no path completed" % e)
        elif not any(c["reached"] for r in pe["results"] for c in r["checks"].values()):
            errs.append("%s: no check was reached" % e)
    if errs:
        raise Broken("\n".join(errs[:5]))
    log("%s holds on everything explored (%.1f s)" % (prop, time.time() - T0))
    return 0


def evidence(prop, spec, tier, seed, results, per_entry, samples, validated, mismatched, cross, nviol, kf, note=None, build_s=0.0):
    fns, lines, checks = set(), {}, {}
    for r in results:
        fns |= set(r["repo_functions"])
        for f, ls in r["repo_lines"].items():
            lines.setdefault(f, set()).update(ls)
        for k, c in r["checks"].items():
            t = checks.setdefault(r["entry"] + ": " + k, {"reached": 0, "decided_by_query": 0, "folded_to_true": 0, "failed": 0})
            t["reached"] += c["reached"]
            t["decided_by_query"] += c["proved"]
            t["folded_to_true"] += c["constant_true"]
            t["failed"] += c["failed"]
    sv = {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "cached": 0}
    for r in results:
        for k in sv:
            sv[k] += r["solver"][k]
    cov = {
        "states": sum(r["paths"] for r in results),
        "transitions": sum(r["forks"] for r in results),
        "traces_validated_against_impl": validated,
        "samples": samples or [note or "no path was completed"],
        "infeasible_branches": sum(r["infeasible"] for r in results),
        "instructions_executed": sum(r["steps"] for r in results),
        "entries": {e: {"crate": p["crate"], "shards": p["shards"], "paths": sum(r["paths"] for r in p["results"]),
                        "max_symbolic_inputs": max([r["max_inputs"] for r in p["results"]] or [0]),
                        "max_path_constraints": max([r["max_constraints"] for r in p["results"]] or [0]),
                        "covers": {k: sum(r["covers"].get(k, 0) for r in p["results"]) for r0 in p["results"] for k in r0["covers"]}}
                    for e, p in per_entry.items()},
        "checks": checks,
        "functions_encoded": sorted(fns),
        "source_lines_encoded": {f: len(l) for f, l in sorted(lines.items())},
        "bounds": spec["bounds"][0 if tier == "quick" else 1] if isinstance(spec["bounds"], list) else spec["bounds"],
        "outside_the_bounds": spec.get("outside", ""),
        "solver": {"name": "z3 " + (results[0]["solver"]["name"] if results else "?"), **sv,
                   "seconds": round(sum(r["solver"]["time"] for r in results), 3), "slowest_query_s": max([r["solver"]["max"] for r in results] or [0])},
        "queries_redecided_by_other_solvers": {"answers": cross[0], "disagreements": cross[1], "by": cross[2]},
        "native_mismatches": mismatched,
        "known_findings_reproduced": sorted(kf),
        "build_s": round(build_s, 1),
    }
    if note:
        cov["note"] = note
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ASSUMPTIONS + spec.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": nviol}
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def replay(path):
    rec = json.load(open(path))
    os.makedirs(os.path.join(WORK, "out"), exist_ok=True)
    prepare(rec["crate"])
    r = run_native(build_native(rec["crate"]), rec["entry"], rec["tier"], rec["inputs"])
    log(json.dumps(r, indent=1))
    ok = reproduces(rec, r)
    log("reproduced" if ok else "not reproduced")
    return 1 if ok else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as b:
        log("BROKEN: %s" % b)
        sys.exit(2)
    except CompileFailure as c:
        log("BROKEN: %s does not compile\n%s" % (c.crate, c.out[-3000:]))
        sys.exit(2)
