#!/usr/bin/env python3
"""Run the check of one property: build the harness against /repo's working tree,
drive the generated cases in parallel shards, merge what they covered into
evidence/<id>.json and report.

  python3 check.py C07            tier from $VERIF_TIER (quick by default)
  python3 check.py C07 --replay FILE   run one recorded case again
  python3 check.py --setup        build everything once

Exit 0: held on everything explored. 1: VIOLATION line printed. 2: the check
itself could not do its work."""
import array, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
REPO = "/repo"
IDS = ["C%02d" % i for i in range(1, 25)]
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS}
HANG_S = 150

# configurations: which builds a check's shards use
MIX = {
    "default": ["release", "checked"] * 4,
    "C01": ["release", "checked", "asan", "release", "checked", "asan", "release", "asan"],
    "C17": ["release", "checked", "naive", "release", "checked", "naive", "release", "naive_checked"],
}
MIX_THOROUGH = {
    "default": ["release", "checked", "opt"] * 2 + ["checked", "opt"],
    "C01": ["asan", "checked", "opt", "asan", "release", "asan", "opt", "checked"],
    "C17": ["opt", "checked", "naive", "opt", "checked", "naive", "release", "naive_checked"],
}
LEVEL = {"C21": "fault_enumeration", "C22": "fault_enumeration"}
THOROUGH_SCALE = {"default": 20.0}
ASSUME = {
    "default": [
        "generated inputs: shapes up to rank 6 and about 10^5 elements; the property is not shown for inputs never generated",
        "the reference model in harness/src/model.rs and the Rust standard operations on elements are correct",
        "x86-64 Linux, the installed stable toolchain, builds with and without overflow checks and debug assertions",
    ],
}


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cargo(binname, config):
    """Build one binary in one configuration from /repo's current tree, return its path."""
    asan = config == "asan"
    naive = config.startswith("naive")
    checked = config in ("checked", "naive_checked")
    last = ""
    for hooks in (True, False):
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("CARGO_") and k not in ("CARGO_HOME",):
                del env[k]
        env["RUSTFLAGS"] = " ".join((["--cfg", "essay_verif"] if hooks else []) + ["-Awarnings"]
                                    + (["-Zsanitizer=address"] if asan else []))
        feats = (["hooks"] if hooks else []) + (["naive"] if naive else []) + (["asan"] if asan else [])
        tdir = os.path.join(TARGET, "asan" if asan else "main")
        env["CARGO_TARGET_DIR"] = tdir
        cmd = ["cargo"] + (["+nightly"] if asan else []) + ["build", "--offline", "--release", "-q", "--bin", binname]
        if feats:
            cmd += ["--features", ",".join(feats)]
        out = os.path.join(tdir, "release", binname)
        if asan:
            cmd += ["--target", "x86_64-unknown-linux-gnu"]
            out = os.path.join(tdir, "x86_64-unknown-linux-gnu", "release", binname)
        if asan:
            cmd += ["--config", 'profile.release.debug="line-tables-only"']
        if config == "opt":
            cmd += ["--config", "profile.release.opt-level=2", "--config", "profile.release.package.essay-tensor.opt-level=3"]
        if checked:
            for k in ("profile.release", "profile.release.package.essay-tensor"):
                cmd += ["--config", k + ".debug-assertions=true", "--config", k + ".overflow-checks=true"]
        r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            dst = os.path.join(TARGET, "bin", "%s-%s" % (binname, config))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            tmp = "%s.%d" % (dst, os.getpid())
            shutil.copy2(out, tmp)
            os.replace(tmp, dst)
            return dst
        last = r.stdout
        if asan:
            continue
        log("build of %s (%s, hooks=%s) failed:\n%s" % (binname, config, hooks, last[-3000:]))
    raise CheckError("cannot build %s in configuration %s:\n%s" % (binname, config, last[-3000:]))


def known_findings(pid):
    keys = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                keys[m.group(2)] = m.group(3).strip()
    return keys


def limits(asan):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not asan:
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    return f


def child_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:abort_on_error=0"
    env["RUST_BACKTRACE"] = "0"
    return env


def run_shards(pid, bins, mix, seed, scale, max_secs, work, extra=()):
    procs = []
    n = len(mix)
    for k, conf in enumerate(mix):
        base = os.path.join(work, "shard%d" % k)
        cmd = [bins[conf], "run", "--seed", str(seed), "--shard", str(k), "--shards", str(n), "--scale", str(scale),
               "--max-secs", str(max_secs), "--out", base + ".json", "--replay", base + ".replay.json",
               "--progress", base + ".progress"] + list(extra)
        err = open(base + ".err", "w")
        p = subprocess.Popen(cmd, stdout=err, stderr=err, env=child_env(), cwd=work, preexec_fn=limits(conf == "asan"))
        procs.append({"p": p, "conf": conf, "base": base, "last": "", "since": time.time(), "hang": False, "shard": k})
    while any(x["p"].poll() is None for x in procs):
        time.sleep(0.1)
        for x in procs:
            if x["p"].poll() is None:
                try:
                    cur = open(x["base"] + ".progress").read()
                except OSError:
                    cur = ""
                if cur != x["last"]:
                    x["last"], x["since"] = cur, time.time()
                elif time.time() - x["since"] > HANG_S:
                    x["hang"] = True
                    x["p"].kill()
    return procs


def tail(path, n=1500):
    try:
        return open(path, errors="replace").read()[-n:]
    except OSError:
        return ""


def collect(pid, bins, procs, seed, replay_dir):
    """-> (violations [(replay, message)], results)"""
    violations, results = [], []
    for x in procs:
        rc = x["p"].returncode
        base = x["base"]
        if rc in (0, 1) and os.path.exists(base + ".json"):
            r = json.load(open(base + ".json"))
            r["conf"] = x["conf"]
            h = array.array("Q")
            h.frombytes(open(base + ".json.hashes", "rb").read())
            r["hashes"] = h
            results.append(r)
            if r["violation"]:
                dst = os.path.join(replay_dir, "%s-%s-%s.json" % (pid, r["violation"]["sub"], x["conf"]))
                shutil.copy(base + ".replay.json", dst)
                violations.append((dst, "%s: %s" % (r["violation"]["sub"], r["violation"]["message"])))
            continue
        crashed = (rc < 0 and -rc in CRASH) or rc == 99
        if crashed or x["hang"]:
            prog = tail(base + ".progress").split()
            what = "does not terminate" if x["hang"] else ("AddressSanitizer report" if rc == 99 else "killed by %s" % signal.Signals(-rc).name)
            err = tail(base + ".err", 6000)
            if len(prog) >= 2 and prog[0] != "-":
                sub, index = prog[0], prog[1]
                dst = os.path.join(replay_dir, "%s-%s-%s.json" % (pid, sub, x["conf"]))
                try:
                    subprocess.run([bins[x["conf"]], "shrink", "--seed", str(seed), "--sub", sub, "--index", index, "--out", dst],
                                   env=child_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120,
                                   preexec_fn=limits(x["conf"] == "asan"))
                except subprocess.TimeoutExpired:
                    pass
                msg = ""
                if os.path.exists(dst):
                    rep = json.load(open(dst))
                    rep["profile"] = x["conf"]
                    rep["observed"] = what
                    if "ERROR: AddressSanitizer" in err:
                        rep["sanitizer"] = err[err.index("ERROR: AddressSanitizer"):][:2000]
                    msg = rep["message"]
                    if msg.startswith("not reproduced"):
                        if x["hang"]:
                            raise CheckError("%s case %s/%s stopped making progress but finishes on its own" % (pid, sub, index))
                        rep["history"] = {"seed": seed, "shard": x["shard"], "shards": len(procs), "until_index": int(index)}
                    open(dst, "w").write(json.dumps(rep, indent=1) + "\n")
                else:
                    open(dst, "w").write(json.dumps({"property": pid, "sub": sub, "seed": seed, "index": int(index),
                                                     "profile": x["conf"], "observed": what, "output": err}, indent=1) + "\n")
                violations.append((dst, "%s case %s %s (%s)" % (sub, index, what, msg)))
                continue
        raise CheckError("shard %d (%s) of %s ended with %s:\n%s" % (x["shard"], x["conf"], pid, rc, tail(base + ".err")))
    return violations, results


def merge(results):
    distinct = set()
    subs, known, samples = {}, {}, []
    evals = 0
    stopped = False
    for r in results:
        distinct.update(r["hashes"])
        evals += r["evaluations"]
        stopped |= r["stopped_by_time"]
        samples += r["samples"]
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
        for s in r["subs"]:
            d = subs.setdefault(s["name"], {"cases": 0, "nontrivial": 0, "labels": {}, "max_case_ms": 0, "cpu_s": 0})
            d["cases"] += s["cases"]
            d["nontrivial"] += s["nontrivial"]
            d["cpu_s"] = round(d["cpu_s"] + s["secs"], 2)
            d["max_case_ms"] = max(d["max_case_ms"], round(s["max_us"] / 1000, 2))
            for k, v in s["labels"].items():
                d["labels"][k] = d["labels"].get(k, 0) + v
    return distinct, subs, known, samples, evals, stopped


def write_evidence(pid, tier, seed, coverage, wall, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL.get(pid, "exploration"), "coverage": coverage,
          "assumptions": ASSUME.get(pid, ASSUME["default"]), "wall_s": round(wall, 2), "violations": violations}
    path = os.path.join(VERIF, "evidence", pid + ".json")
    tmp = path + ".tmp"
    open(tmp, "w").write(json.dumps(ev, indent=1) + "\n")
    os.replace(tmp, path)


def check(pid, tier, seed, scale=None, only=None):
    t0 = time.time()
    work = os.path.join(VERIF, "work", "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    replay_dir = os.path.join(VERIF, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    try:
        table = MIX if tier == "quick" else MIX_THOROUGH
        mix = table.get(pid, table["default"])
        bins = {}
        unbuilt = []
        for conf in dict.fromkeys(mix):
            try:
                bins[conf] = cargo(pid.lower(), conf)
            except CheckError as e:
                # the crate builds, one of its optional back ends does not
                if not conf.startswith("naive") or "release" not in bins and "opt" not in bins:
                    raise
                dst = os.path.join(replay_dir, "%s-build-%s.txt" % (pid, conf))
                open(dst, "w").write(str(e) + "\n")
                unbuilt.append((dst, "the crate with feature `naive` does not compile while the default one does"))
        mix = [c for c in mix if c in bins]
        build_s = time.time() - t0
        if scale is None:
            scale = 1.0 if tier == "quick" else THOROUGH_SCALE.get(pid, THOROUGH_SCALE["default"])
        max_secs = 240 if tier == "quick" else 3000
        extra = ["--only", only] if only else []
        procs = run_shards(pid, bins, mix, seed, scale, max_secs, work, extra)
        violations, results = collect(pid, bins, procs, seed, replay_dir)
        violations += unbuilt
        distinct, subs, known, samples, evals, stopped = merge(results)
        listed = known_findings(pid)
        for k, n in known.items():
            if k in listed:
                print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, listed[k], n))
            else:
                dst = os.path.join(replay_dir, "%s-unlisted-%s.json" % (pid, k))
                open(dst, "w").write(json.dumps({"property": pid, "key": k, "cases": n, "seed": seed}) + "\n")
                violations.append((dst, "finding %s is not listed" % k))
        samples = samples[:24]
        coverage = {"evaluations": evals, "distinct_nontrivial": len(distinct),
                    "rule": results[0]["rule"] if results else "", "samples": samples, "sub_properties": subs,
                    "configurations": sorted(set(mix)), "shards": len(mix), "stopped_by_time": stopped,
                    "build_s": round(build_s, 2)}
        if results and not samples:
            coverage["samples"] = ["(first shard reported none)"]
        write_evidence(pid, tier, seed, coverage, time.time() - t0, len(violations))
        if violations:
            for dst, msg in violations[:8]:
                print("VIOLATION property=%s replay=%s" % (pid, dst))
                print("  " + msg.replace("\n", "\n  ")[:1500])
            return 1
        print("OK property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d build=%.1fs wall=%.1fs" % (
            pid, tier, seed, evals, len(distinct), build_s, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(pid, path):
    rep = json.load(open(path))
    conf = rep.get("profile", "release")
    if conf not in ("release", "checked", "opt", "asan", "naive", "naive_checked"):
        conf = "release"
    b = cargo(pid.lower(), conf)
    r = subprocess.run([b, "replay", path], env=child_env())
    return 0 if r.returncode == 0 else 1


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        if args and args[0] == "--setup":
            for pid in IDS:
                if pid == "C23":
                    import optgen
                    optgen.setup()
                    continue
                for conf in dict.fromkeys(MIX.get(pid, MIX["default"])):
                    cargo(pid.lower(), conf)
            return 0
        pid = args[0]
        if pid == "C23":
            import optgen
            return optgen.main(args[1:], tier, seed)
        if "--replay" in args:
            return replay(pid, args[args.index("--replay") + 1])
        scale = float(args[args.index("--scale") + 1]) if "--scale" in args else None
        only = args[args.index("--only") + 1] if "--only" in args else None
        return check(pid, tier, seed, scale, only)
    except CheckError as e:
        log("CHECK ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
