"""C23: random option structs and random sequences of option calls, compiled
against /repo's essay-opt and compared, field by field, with what a model of
"the last value given, otherwise the starting value" says."""
import hashlib, json, os, random, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(VERIF, "target", "opt")
BINS = 8
RULE = ("a case is a generated struct with a sequence of option calls from a starting value; "
        "non-trivial: at least one call and at least two fields, or at least two calls")

PRELUDE = """#![allow(warnings)]
#[derive(Clone, Debug, PartialEq, Default)] pub enum Color { #[default] Red, Green, Mix(u8) }
#[derive(Debug, PartialEq, Default)] pub struct Once(pub i64);
#[derive(Clone, Debug, PartialEq, Default)] pub struct Wrap { pub n: i64, pub text: String }
impl From<i32> for Wrap { fn from(n: i32) -> Self { Wrap { n: n as i64, text: "i32".into() } } }
impl From<&str> for Wrap { fn from(s: &str) -> Self { Wrap { n: -1, text: s.into() } } }
pub mod deep { #[derive(Clone, Debug, PartialEq, Default)] pub struct Inner(pub u8); impl From<u8> for Inner { fn from(v: u8) -> Self { Inner(v.wrapping_add(1)) } } }
"""

# type -> (default value, [(argument, value of the field)])
PLAIN = {
    "i32": ("0", ["0", "-7", "i32::MAX", "41"]),
    "usize": ("0", ["0", "3", "usize::MAX"]),
    "u8": ("0", ["0", "255", "17"]),
    "f32": ("0.0", ["1.5", "-0.25", "f32::MAX"]),
    "f64": ("0.0", ["2.5", "1e300", "-8.0"]),
    "bool": ("false", ["true", "false"]),
    "char": ("'\\0'", ["'x'", "'\\u{e9}'"]),
    "String": ("String::new()", ["String::new()", "String::from(\"abc\")", "\"a longer piece of text\".to_string()"]),
    "&'static str": ("\"\"", ["\"\"", "\"lit\""]),
    "Vec<i32>": ("vec![]", ["vec![]", "vec![1, 2, 3]", "vec![-1]"]),
    "(i32, String)": ("(0, String::new())", ["(4, \"t\".to_string())", "(-4, String::new())"]),
    "[u8; 3]": ("[0, 0, 0]", ["[1, 2, 3]", "[9, 9, 9]"]),
    "Color": ("Color::Red", ["Color::Red", "Color::Green", "Color::Mix(4)"]),
    "Once": ("Once(0)", ["Once(5)", "Once(-5)"]),
    "Box<i64>": ("Box::new(0i64)", ["Box::new(9i64)", "Box::new(-2i64)"]),
    "deep::Inner": ("deep::Inner(0)", ["deep::Inner(7)", "deep::Inner(8)"]),
    "Vec<Option<i32>>": ("vec![]", ["vec![None, Some(2)]", "vec![None]"]),
}
OPTIONAL = {
    "i32": [("5i32", "5"), ("7u16", "7"), ("-3i8", "-3"), ("true", "1")],
    "usize": [("0", "0"), ("6", "6"), ("usize::MAX", "usize::MAX"), ("7usize", "7")],
    "u64": [("9u32", "9"), ("8u64", "8"), ("'a'", "97")],
    "f32": [("1.5f32", "1.5"), ("3u8", "3.0"), ("-2i16", "-2.0")],
    "f64": [("1.5f32", "1.5"), ("2i32", "2.0"), ("0.25f64", "0.25")],
    "bool": [("true", "true"), ("false", "false")],
    "String": [("\"x\"", "\"x\".to_string()"), ("String::from(\"own\")", "\"own\".to_string()"), ("'c'", "\"c\".to_string()"), ("\"\"", "String::new()")],
    "Vec<u8>": [("\"ab\"", "vec![97, 98]"), ("vec![1u8]", "vec![1]"), ("[1u8, 2]", "vec![1, 2]"), ("Vec::<u8>::new()", "vec![]")],
    "Option<i32>": [("5i32", "Some(5)"), ("None::<i32>", "None"), ("Some(6i32)", "Some(6)")],
    "Option<usize>": [("5usize", "Some(5)"), ("None::<usize>", "None")],
    "Once": [("Once(4)", "Once(4)"), ("Once(-4)", "Once(-4)")],
    "Color": [("Color::Green", "Color::Green"), ("Color::Mix(3)", "Color::Mix(3)")],
    "Wrap": [("3i32", "Wrap { n: 3, text: \"i32\".to_string() }"), ("\"w\"", "Wrap { n: -1, text: \"w\".to_string() }"),
             ("Wrap::default()", "Wrap::default()")],
    "deep::Inner": [("4u8", "deep::Inner(5)"), ("deep::Inner(4)", "deep::Inner(4)")],
    "Box<i32>": [("5i32", "Box::new(5)"), ("Box::new(6)", "Box::new(6)")],
    "(i32, f32)": [("(1, 2.0)", "(1, 2.0)"), ("(-1, 0.5)", "(-1, 0.5)")],
    "&'static str": [("\"lit\"", "\"lit\""), ("\"\"", "\"\"")],
}
NAMES = ["size", "name", "fft_length", "norm", "value", "arg", "opt", "a", "b", "x", "x_1", "scale", "bins", "r#type", "label",
         "value2", "axis", "n", "self_", "this", "path", "alpha", "beta",
         "gamma", "delta_x", "rows", "cols", "r#fn", "data", "field", "fields", "ident", "token", "stream", "other", "item", "kind", "mode",
         "width", "height", "depth", "seed", "rate", "start", "end", "step", "y", "z", "w"]


def optional(ty):
    return ty[7:-1] if ty.startswith("Option<") else None


def default_of(ty):
    return "None" if optional(ty) else PLAIN[ty][0]


def some_value(rng, ty):
    """a value of the field's type, as a literal"""
    inner = optional(ty)
    if inner:
        return rng.choice(["None"] + ["Some(%s)" % v for _, v in OPTIONAL[inner]])
    return rng.choice(PLAIN[ty][1])


def some_call(rng, ty):
    """(argument, value the field then has)"""
    inner = optional(ty)
    if inner:
        a, v = rng.choice(OPTIONAL[inner])
        return a, "Some(%s)" % v
    v = rng.choice(PLAIN[ty][1])
    return v, v


def gen_struct(rng):
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 18, 35, 0])
    names = rng.sample(NAMES, n)
    kinds = rng.random()
    fields = []
    for k in range(n):
        p = 0.5 if kinds < 0.6 else (1.0 if kinds < 0.8 else 0.0)
        if rng.random() < p:
            ty = "Option<%s>" % rng.choice(list(OPTIONAL))
        else:
            ty = rng.choice(list(PLAIN))
        # several fields of one type: values must not cross over
        if fields and rng.random() < 0.35:
            ty = rng.choice(fields)["ty"]
        fields.append({"name": names[k], "ty": ty})
    custom = rng.random() < 0.5
    return {"fields": fields, "default": [some_value(rng, f["ty"]) for f in fields] if custom else None,
            "vis": rng.choice(["pub ", "", "pub(crate) "]), "field_vis": rng.choice(["pub ", "", "pub(super) "]),
            "doc": rng.random() < 0.3, "opt": rng.choice(["Opt", "Options", "ArgOpt"]), "arg": rng.choice(["Arg", "Conf", "Opts_", "X"])}


def gen_case(rng, s):
    start = rng.choice(["nil", "nil", "default", "literal", "literal", "into"])
    given = [some_value(rng, f["ty"]) for f in s["fields"]]
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 8])
    if len(s["fields"]) > 12 and rng.random() < 0.5:
        n = rng.choice([12, 20, 40])
    calls = []
    for _ in range(n if s["fields"] else 0):
        k = rng.randrange(len(s["fields"]))
        if calls and rng.random() < 0.2:
            k = calls[-1][0]
        a, v = some_call(rng, s["fields"][k]["ty"])
        calls.append([k, a, v])
    return {"start": start, "given": given, "calls": calls, "generic": rng.random() < 0.5, "mid": rng.randrange(len(calls) + 1) if rng.random() < 0.3 else None}


def expected(s, c):
    want = [default_of(f["ty"]) for f in s["fields"]] if s["default"] is None else list(s["default"])
    if c["start"] in ("literal",):
        want = list(c["given"])
    for k, _, v in c["calls"]:
        want[k] = v
    return want


def rust_struct(m, s, cases):
    out = ["mod s%d {" % m, "use super::*; use essay_opt::derive_opt;"]
    if s["doc"]:
        out.append("/// documented\n#[allow(dead_code)]")
    out.append("#[derive_opt(%s)]" % s["opt"])
    out.append("#[derive(Debug, PartialEq%s)]" % ("" if s["default"] is not None else ", Default"))
    out.append("%sstruct %s {" % (s["vis"], s["arg"]))
    for f in s["fields"]:
        if s["doc"]:
            out.append("  /// a field\n  #[allow(unused)]")
        out.append("  %s%s: %s," % (s["field_vis"], f["name"], f["ty"]))
    out.append("}")
    if s["default"] is not None:
        out.append("impl Default for %s { fn default() -> Self { %s { %s } } }" % (
            s["arg"], s["arg"], ", ".join("%s: %s" % (f["name"], v) for f, v in zip(s["fields"], s["default"]))))
    out.append("fn take(o: impl %s) -> %s { o.into_arg() }" % (s["opt"], s["arg"]))
    for j, c in enumerate(cases):
        if c["start"] == "nil":
            e = "()"
        elif c["start"] == "into":
            e = "().into_arg()"
        elif c["start"] == "default":
            e = "%s::default()" % s["arg"]
        else:
            e = "%s { %s }" % (s["arg"], ", ".join("%s: %s" % (f["name"], v) for f, v in zip(s["fields"], c["given"])))
        if not (c["start"] == "nil" and not c["calls"]):
            e = "(%s)" % e if c["start"] == "literal" else e
        for i, (k, a, _) in enumerate(c["calls"]):
            if c["mid"] == i:
                e += ".into_arg()"
            e += ".%s(%s)" % (s["fields"][k]["name"], a)
        e = "take(%s)" % e if c["generic"] else "%s.into_arg()" % e
        # evaluated once, every field compared
        want = expected(s, c)
        tests = "".join("{ let w: %s = %s; if got.%s != w { bad.push(format!(\"%s is {:?}, not {:?}\", got.%s, w)); } }" % (
            f["ty"], w, f["name"], f["name"].replace("r#", ""), f["name"]) for f, w in zip(s["fields"], want))
        out.append("pub fn c%d(bad: &mut Vec<String>) { let got: %s = %s; %s }" % (j, s["arg"], e, tests))
    out.append("}")
    return "\n".join(out)


def rust_program(items):
    """items: [(number, struct, cases)]"""
    body = [PRELUDE]
    calls = []
    for m, s, cases in items:
        body.append(rust_struct(m, s, cases))
        for j in range(len(cases)):
            calls.append("(%d, %d, s%d::c%d)" % (m, j, m, j))
    body.append("fn main() {\n let all: &[(usize, usize, fn(&mut Vec<String>))] = &[%s];\n"
                " std::panic::set_hook(Box::new(|_| {}));\n"
                " for (m, j, f) in all { let mut bad = vec![];\n"
                "  if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut bad))).is_err() { bad.push(\"panicked\".to_string()); }\n"
                "  if !bad.is_empty() { println!(\"FAIL {} {} {}\", m, j, bad.join(\"; \")); } }\n"
                " println!(\"DONE {}\", all.len()); }" % ",\n".join(calls))
    return "\n".join(body)


CARGO = """[package]
name = "optcases"
version = "0.1.0"
edition = "2021"
publish = false
[workspace]
[dependencies]
essay-opt = { path = "/repo/crates/essay-opt" }
[profile.dev]
debug = false
incremental = false
"""


class CheckError(Exception):
    pass


def build(work, programs):
    """programs: {name: source} -> (ok, output)"""
    crate = os.path.join(work, "crate")
    bindir = os.path.join(crate, "src", "bin")
    shutil.rmtree(bindir, ignore_errors=True)
    os.makedirs(bindir)
    open(os.path.join(crate, "Cargo.toml"), "w").write(CARGO)
    lock = os.path.join(VERIF, "optcases.Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(crate, "Cargo.lock"))
    for name, src in programs.items():
        open(os.path.join(bindir, name + ".rs"), "w").write(src)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k != "CARGO_HOME":
            del env[k]
    env.pop("RUSTFLAGS", None)
    env["CARGO_TARGET_DIR"] = TARGET
    r = subprocess.run(["cargo", "build", "--offline", "-q", "--keep-going"], cwd=crate, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


def run_bin(name):
    def lim():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        r = subprocess.run([os.path.join(TARGET, "debug", name)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=120, preexec_fn=lim, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -9, "does not terminate"


def verdict(work, s, c):
    """None, or what is wrong with this one case"""
    ok, out = build(work, {"one": rust_program([(0, s, [c])])})
    if not ok:
        return "does not compile: " + first_error(out)
    rc, out = run_bin("one")
    m = re.search(r"^FAIL 0 0 (.*)$", out, re.M)
    if m:
        return m.group(1)
    if rc != 0 or "DONE 1" not in out:
        return "ended with %s: %s" % (rc, out[-300:])
    return None


def first_error(out):
    m = re.search(r"^error.*(?:\n.*){0,3}", out, re.M)
    return (m.group(0) if m else out[:400]).replace("\n", " ")


def drop_field(s, c, k):
    if any(x[0] == k for x in c["calls"]):
        return None
    s2 = json.loads(json.dumps(s))
    c2 = json.loads(json.dumps(c))
    del s2["fields"][k]
    if s2["default"] is not None:
        del s2["default"][k]
    del c2["given"][k]
    for x in c2["calls"]:
        if x[0] > k:
            x[0] -= 1
    return s2, c2


def shrink(work, s, c, msg, budget=60):
    t0 = time.time()
    steps = 0
    moved = True
    while moved and time.time() - t0 < budget:
        moved = False
        cands = []
        for i in range(len(c["calls"])):
            c2 = json.loads(json.dumps(c))
            del c2["calls"][i]
            if c2["mid"] is not None and c2["mid"] > len(c2["calls"]):
                c2["mid"] = None
            cands.append((s, c2))
        for k in range(len(s["fields"])):
            r = drop_field(s, c, k)
            if r:
                cands.append(r)
        if s["doc"]:
            cands.append((dict(s, doc=False), c))
        if s["default"] is not None:
            cands.append((dict(s, default=None), c))
        if c["mid"] is not None:
            cands.append((s, dict(c, mid=None)))
        if c["generic"]:
            cands.append((s, dict(c, generic=False)))
        if c["start"] not in ("nil",):
            cands.append((s, dict(c, start="nil")))
        for s2, c2 in cands:
            if time.time() - t0 > budget:
                break
            steps += 1
            m = verdict(work, s2, c2)
            if m:
                s, c, msg, moved = s2, c2, m, True
                break
    return s, c, msg, steps


def setup():
    work = os.path.join(VERIF, "work", "C23-setup-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        ok, out = build(work, {"probe": PRELUDE + "fn main() {}"})
        if not ok:
            raise CheckError("cannot build against essay-opt:\n" + out[-2000:])
        lock = os.path.join(work, "crate", "Cargo.lock")
        mine = os.path.join(VERIF, "optcases.Cargo.lock")
        if not os.path.exists(mine):
            shutil.copy(lock, mine)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(tier, seed):
    t0 = time.time()
    work = os.path.join(VERIF, "work", "C23-%d" % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    rounds = 4 if tier == "quick" else 40
    per_bin, per_struct = (28, 14)
    failures = []
    evals = 0
    distinct, samples, labels = set(), [], {}
    structs = 0
    try:
        ok, out = build(work, {"probe": PRELUDE + "fn main() {}"})
        if not ok:
            raise CheckError("cannot build against essay-opt:\n" + out[-2000:])
        for rnd in range(rounds):
            if failures or time.time() - t0 > 3000:
                break
            programs, items = {}, {}
            for b in range(BINS):
                rng = random.Random("%d/%d/%d" % (seed, rnd, b))
                lst = []
                for m in range(per_bin):
                    s = gen_struct(rng)
                    lst.append((m, s, [gen_case(rng, s) for _ in range(per_struct)]))
                items["g%d" % b] = lst
                programs["g%d" % b] = rust_program(lst)
            ok, out = build(work, programs)
            if not ok:
                # which of them
                for name, lst in items.items():
                    good, o = build(work, {name: programs[name]})
                    if good:
                        continue
                    left = lst
                    while len(left) > 1:
                        half = left[:len(left) // 2]
                        good, o = build(work, {"half": rust_program(half)})
                        left = left[len(left) // 2:] if good else half
                    s, cases = left[0][1], left[0][2]
                    for c in cases:
                        m = verdict(work, s, c)
                        if m:
                            failures.append((s, c, m))
                            break
                    if failures:
                        break
                if not failures:
                    raise CheckError("the generated programs do not build, and each on its own does:\n" + out[-2000:])
            for name, lst in items.items():
                if failures:
                    break
                rc, out = run_bin(name)
                bad = re.findall(r"^FAIL (\d+) (\d+) (.*)$", out, re.M)
                total = sum(len(c) for _, _, c in lst)
                if rc != 0 or "DONE %d" % total not in out:
                    # a crash: one case at a time
                    for m, s, cases in lst:
                        for c in cases:
                            v = verdict(work, s, c)
                            if v:
                                failures.append((s, c, v))
                                break
                        if failures:
                            break
                    if not failures:
                        raise CheckError("%s ended with %s: %s" % (name, rc, out[-500:]))
                for m, j, msg in bad[:1]:
                    failures.append((lst[int(m)][1], lst[int(m)][2][int(j)], msg))
                evals += total
                structs += len(lst)
                for _, s, cases in lst:
                    for f in s["fields"]:
                        k = "optional" if optional(f["ty"]) else "plain"
                        labels["%s fields" % k] = labels.get("%s fields" % k, 0) + 1
                    for c in cases:
                        k = "start: " + c["start"]
                        labels[k] = labels.get(k, 0) + 1
                        rep = len(set(x[0] for x in c["calls"])) < len(c["calls"])
                        for cond, k in ((rep, "an option given twice"), (len(c["calls"]) >= 3, "three or more calls"), (not c["calls"], "no calls"),
                                        (s["default"] is not None, "hand-written default")):
                            if cond:
                                labels[k] = labels.get(k, 0) + 1
                        if (c["calls"] and len(s["fields"]) > 1) or len(c["calls"]) > 1:
                            h = hashlib.sha1(json.dumps([s, c]).encode()).hexdigest()
                            distinct.add(h)
                            if len(samples) < 6 and rnd == 0 and len(s["fields"]) < 5 and h[0] in "03":
                                samples.append({"fields": s["fields"], "default": s["default"], "case": c})
        violations = []
        for s, c, msg in failures[:1]:
            s, c, msg, steps = shrink(work, s, c, msg)
            path = os.path.join(replays, "C23-%d.json" % seed)
            open(path, "w").write(json.dumps({"property": "C23", "struct": s, "case": c, "message": msg, "seed": seed,
                                              "shrink_steps": steps, "program": rust_struct(0, s, [c])}, indent=1) + "\n")
            violations.append((path, msg))
        ev = {"property": "C23", "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": RULE, "samples": samples or ["none"],
                           "structs": structs, "labels": labels},
              "assumptions": ["structs without generics, with the field types and conversions of the table in optgen.py; field names that are methods of traits in scope (default, into, into_arg) are left out",
                              "x86-64 Linux and the installed stable toolchain"],
              "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        open(os.path.join(VERIF, "evidence", "C23.json"), "w").write(json.dumps(ev, indent=1) + "\n")
        if violations:
            for path, msg in violations:
                print("VIOLATION property=C23 replay=%s" % path)
                print("  " + msg)
            return 1
        print("OK property=C23 tier=%s seed=%d structs=%d cases=%d distinct_nontrivial=%d wall=%.1fs" % (
            tier, seed, structs, evals, len(distinct), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    rep = json.load(open(path))
    work = os.path.join(VERIF, "work", "C23-replay-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        m = verdict(work, rep["struct"], rep["case"])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("PASS C23" if m is None else "FAIL C23: " + m)
    return 0 if m is None else 1


def main(args, tier, seed):
    try:
        if "--replay" in args:
            return replay(args[args.index("--replay") + 1])
        return check(tier, seed)
    except CheckError as e:
        print("CHECK ERROR: %s" % e, file=sys.stderr)
        return 2
