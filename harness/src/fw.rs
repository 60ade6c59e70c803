//! The property framework: generation, execution, counting, shrinking, replay.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub type R = Result<(), String>;

#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub known: BTreeMap<String, u64>,
}

impl Ctx {
    /// count a class of cases
    pub fn label(&mut self, s: &str) {
        match self.labels.get_mut(s) {
            Some(n) => *n += 1,
            None => {
                self.labels.insert(s.to_string(), 1);
            }
        }
    }
    pub fn label_if(&mut self, c: bool, s: &str) {
        if c {
            self.label(s)
        }
    }
    /// mark the case non-trivial
    pub fn nt(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    /// a listed known finding was observed
    pub fn known(&mut self, s: &str) {
        *self.known.entry(s.to_string()).or_insert(0) += 1;
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(true) };
}

/// Payload of panics the harness itself injects
pub struct Injected;

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().is::<Injected>() {
            "injected".to_string()
        } else {
            "panic".to_string()
        };
        let mut msg = msg;
        if msg.len() > 500 {
            let mut n = 500;
            while !msg.is_char_boundary(n) {
                n -= 1;
            }
            msg.truncate(n);
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|c| *c.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|c| c.borrow().clone())
}

/// Run `f`, which the library must refuse with a panic
pub fn rejects<T>(what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> R {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => {
            std::mem::forget(v);
            Err(format!("accepted what must be refused: {}", what()))
        }
        Err(_) => Ok(()),
    }
}

/// Run `f`; a panic becomes an error
pub fn accepts<T>(what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}: {}", what(), last_panic()))
}

/// Run `f`; None when it panics
pub fn attempt<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

#[derive(Debug)]
pub enum Outcome {
    Pass,
    Fail(String),
}

pub trait Sub {
    fn name(&self) -> &str;
    fn cases(&self) -> u64;
    /// generate and run the case of this seed; calls `seen` with the case's hash
    fn exec(&self, seed: [u8; 32], ctx: &mut Ctx) -> (Outcome, u64, u64);
    fn gen(&self, seed: [u8; 32]) -> Value;
    fn exec_json(&self, v: &Value, ctx: &mut Ctx) -> Outcome;
    fn shrink(&self, seed: [u8; 32], fork: bool) -> (Value, String, u32);
}

pub struct TypedSub<C: Debug + Clone + 'static> {
    name: String,
    cases: u64,
    strat: BoxedStrategy<C>,
    test: Box<dyn Fn(&C, &mut Ctx) -> R>,
}

/// `cases`: how many cases the quick tier generates
pub fn sub<C, S>(name: &str, cases: u64, strat: S, test: impl Fn(&C, &mut Ctx) -> R + 'static) -> Box<dyn Sub>
where
    C: Debug + Clone + Serialize + DeserializeOwned + 'static,
    S: Strategy<Value = C> + 'static,
{
    Box::new(TypedSub { name: name.to_string(), cases, strat: strat.boxed(), test: Box::new(test) })
}

fn runner(seed: [u8; 32]) -> TestRunner {
    let mut config = Config::default();
    config.max_local_rejects = 100_000;
    config.failure_persistence = None;
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed))
}

struct HashW(u64);
impl Write for HashW {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        for b in buf {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100_0000_01b3);
        }
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn run_test<C>(test: &dyn Fn(&C, &mut Ctx) -> R, case: &C, ctx: &mut Ctx) -> Outcome {
    let r = catch_unwind(AssertUnwindSafe(|| test(case, ctx)));
    let mem = crate::alloc::take_error();
    match (r, mem) {
        (_, Some(e)) => Outcome::Fail(e),
        (Ok(Ok(())), None) => Outcome::Pass,
        (Ok(Err(e)), None) => Outcome::Fail(e),
        (Err(_), None) => Outcome::Fail(format!("panicked: {}", last_panic())),
    }
}

/// Run in a forked child, so that a crash or a hang counts as a failure
fn forked(f: impl FnOnce() -> Outcome) -> Outcome {
    unsafe {
        let mut fds = [0i32; 2];
        libc::pipe(fds.as_mut_ptr());
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            libc::alarm(20);
            let (code, msg) = match f() {
                Outcome::Pass => (0, String::new()),
                Outcome::Fail(e) => (1, e),
            };
            let n = msg.len().min(4000);
            libc::write(fds[1], msg.as_ptr() as *const libc::c_void, n);
            libc::_exit(code);
        }
        libc::close(fds[1]);
        let mut msg = Vec::new();
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut libc::c_void, buf.len());
            if n <= 0 {
                break;
            }
            msg.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            Outcome::Pass
        } else if libc::WIFSIGNALED(st) {
            Outcome::Fail(format!("killed by signal {}", libc::WTERMSIG(st)))
        } else {
            let m = String::from_utf8_lossy(&msg).to_string();
            Outcome::Fail(if m.is_empty() { format!("exited with {}", libc::WEXITSTATUS(st)) } else { m })
        }
    }
}

impl<C> Sub for TypedSub<C>
where
    C: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    fn name(&self) -> &str {
        &self.name
    }
    fn cases(&self) -> u64 {
        self.cases
    }
    fn exec(&self, seed: [u8; 32], ctx: &mut Ctx) -> (Outcome, u64, u64) {
        let tree = self.strat.new_tree(&mut runner(seed)).expect("generator");
        let case = tree.current();
        let mut w = HashW(0xcbf29ce484222325);
        w.write_all(self.name.as_bytes()).unwrap();
        serde_json::to_writer(&mut w, &case).unwrap();
        let h = w.0;
        let t = Instant::now();
        let r = run_test(&*self.test, &case, ctx);
        (r, h, t.elapsed().as_micros() as u64)
    }
    fn gen(&self, seed: [u8; 32]) -> Value {
        serde_json::to_value(self.strat.new_tree(&mut runner(seed)).expect("generator").current()).unwrap()
    }
    fn exec_json(&self, v: &Value, ctx: &mut Ctx) -> Outcome {
        let case: C = match serde_json::from_value(v.clone()) {
            Ok(c) => c,
            Err(e) => return Outcome::Fail(format!("unreadable case: {}", e)),
        };
        run_test(&*self.test, &case, ctx)
    }
    fn shrink(&self, seed: [u8; 32], fork: bool) -> (Value, String, u32) {
        let t0 = Instant::now();
        let mut tree = self.strat.new_tree(&mut runner(seed)).expect("generator");
        let run = |c: &C| {
            if fork {
                forked(|| run_test(&*self.test, c, &mut Ctx::default()))
            } else {
                run_test(&*self.test, c, &mut Ctx::default())
            }
        };
        let mut best = tree.current();
        let mut msg = match run(&best) {
            Outcome::Fail(m) => m,
            Outcome::Pass => "not reproduced in isolation".to_string(),
        };
        let mut steps = 0;
        if tree.simplify() {
            loop {
                steps += 1;
                if t0.elapsed().as_secs() > 25 || steps > 5000 {
                    break;
                }
                let cur = tree.current();
                match run(&cur) {
                    Outcome::Fail(m) => {
                        best = cur;
                        msg = m;
                        if !tree.simplify() {
                            break;
                        }
                    }
                    Outcome::Pass => {
                        if !tree.complicate() {
                            break;
                        }
                    }
                }
            }
        }
        (serde_json::to_value(best).unwrap(), msg, steps)
    }
}

pub struct Prop {
    pub id: &'static str,
    /// what makes a case non-trivial
    pub rule: &'static str,
    pub subs: Vec<Box<dyn Sub>>,
}

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

fn case_seed(seed: u64, name: &str, index: u64) -> [u8; 32] {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut x = mix(seed ^ mix(h ^ mix(index)));
    let mut out = [0u8; 32];
    for k in 0..4 {
        x = mix(x ^ k);
        out[k as usize * 8..k as usize * 8 + 8].copy_from_slice(&x.to_le_bytes());
    }
    out
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn profile() -> &'static str {
    if cfg!(debug_assertions) { "checked" } else { "release" }
}

/// Entry point of every check binary
pub fn main(prop: Prop) {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for s in &prop.subs {
                println!("{} {}", s.name(), s.cases());
            }
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
            let name = v["sub"].as_str().unwrap();
            let s = prop.subs.iter().find(|s| s.name() == name).expect("unknown sub-property");
            let mut ctx = Ctx::default();
            match s.exec_json(&v["case"], &mut ctx) {
                Outcome::Pass => println!("PASS {} {}", prop.id, name),
                Outcome::Fail(m) => {
                    println!("FAIL {} {}: {}", prop.id, name, m);
                    std::process::exit(1);
                }
            }
        }
        Some("shrink") => {
            // after a crash: --seed --sub --index --out
            let seed: u64 = arg(&args, "--seed").unwrap().parse().unwrap();
            let name = arg(&args, "--sub").unwrap();
            let index: u64 = arg(&args, "--index").unwrap().parse().unwrap();
            let s = prop.subs.iter().find(|s| s.name() == name).expect("unknown sub-property");
            let (case, msg, steps) = s.shrink(case_seed(seed, &name, index), true);
            write_replay(&arg(&args, "--out").unwrap(), prop.id, &name, seed, index, &case, &msg, steps);
            println!("{}", msg);
        }
        Some("run") => run(prop, &args),
        _ => {
            eprintln!("usage: list | run | replay FILE | shrink");
            std::process::exit(2);
        }
    }
}

fn write_replay(path: &str, id: &str, sub: &str, seed: u64, index: u64, case: &Value, msg: &str, steps: u32) {
    let v = json!({"property": id, "sub": sub, "case": case, "message": msg, "seed": seed, "index": index,
        "profile": profile(), "shrink_steps": steps});
    std::fs::write(path, serde_json::to_string_pretty(&v).unwrap() + "\n").expect("write replay");
}

fn run(prop: Prop, args: &[String]) {
    let seed: u64 = arg(args, "--seed").unwrap().parse().unwrap();
    let shard: u64 = arg(args, "--shard").unwrap().parse().unwrap();
    let shards: u64 = arg(args, "--shards").unwrap().parse().unwrap();
    let scale: f64 = arg(args, "--scale").unwrap().parse().unwrap();
    let max_secs: u64 = arg(args, "--max-secs").unwrap().parse().unwrap();
    let out = arg(args, "--out").unwrap();
    let only = arg(args, "--only");
    let replay = arg(args, "--replay").unwrap();
    let progress = std::fs::OpenOptions::new().create(true).write(true).truncate(true)
        .open(arg(args, "--progress").unwrap()).expect("progress file");
    use std::os::unix::fs::FileExt;

    let t0 = Instant::now();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut evals = 0u64;
    let mut subs = Vec::new();
    let mut samples = Vec::new();
    let mut violation = Value::Null;
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut stopped = false;

    'outer: for s in &prop.subs {
        if only.as_ref().map_or(false, |o| !o.split(',').any(|o| o == s.name())) {
            continue;
        }
        let n = ((s.cases() as f64 * scale).ceil() as u64).max(1);
        let mut ctx = Ctx::default();
        let (mut done, mut nontriv) = (0u64, 0u64);
        let mut sampled = 0;
        let mut max_us = 0;
        let ts = Instant::now();
        let mut i = shard;
        while i < n {
            if t0.elapsed().as_secs() >= max_secs {
                stopped = true;
                break;
            }
            let line = format!("{:<40} {:<20}\n", s.name(), i);
            progress.write_all_at(line.as_bytes(), 0).ok();
            ctx.nontrivial = false;
            let cs = case_seed(seed, s.name(), i);
            // every other case runs where freed memory is used again at once
            crate::alloc::REUSE.store(i / shards % 2 == 1, std::sync::atomic::Ordering::SeqCst);
            let (outcome, hash, us) = s.exec(cs, &mut ctx);
            max_us = max_us.max(us);
            done += 1;
            evals += 1;
            if ctx.nontrivial {
                nontriv += 1;
                hashes.insert(hash);
                if sampled < 2 && shard == 0 {
                    sampled += 1;
                    let g = s.gen(cs);
                    let text = g.to_string();
                    samples.push(if text.len() > 700 {
                        json!({"sub": s.name(), "index": i, "case_prefix": text.chars().take(700).collect::<String>()})
                    } else {
                        json!({"sub": s.name(), "index": i, "case": g})
                    });
                }
            }
            if let Outcome::Fail(m) = outcome {
                eprintln!("{} {} case {} fails: {}", prop.id, s.name(), i, m);
                let (case, msg, steps) = s.shrink(cs, false);
                let msg = if msg.starts_with("not reproduced") { format!("{} (in sequence; {})", m, msg) } else { msg };
                write_replay(&replay, prop.id, s.name(), seed, i, &case, &msg, steps);
                violation = json!({"sub": s.name(), "index": i, "message": msg, "replay": replay});
                break 'outer;
            }
            i += shards;
        }
        for (k, v) in &ctx.known {
            *known.entry(k.clone()).or_insert(0) += v;
        }
        subs.push(json!({"name": s.name(), "cases": done, "nontrivial": nontriv, "labels": ctx.labels,
            "secs": ts.elapsed().as_secs_f64(), "max_us": max_us}));
    }
    progress.write_all_at(format!("{:<40} {:<20}\n", "-", 0).as_bytes(), 0).ok();
    let mut bytes = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}.hashes", out), bytes).expect("hashes");
    let v = json!({"property": prop.id, "rule": prop.rule, "evaluations": evals, "subs": subs, "samples": samples,
        "violation": violation, "known": known, "stopped_by_time": stopped, "profile": profile(),
        "wall_s": t0.elapsed().as_secs_f64()});
    std::fs::write(&out, v.to_string()).expect("out");
    if !violation.is_null() {
        std::process::exit(1);
    }
}
