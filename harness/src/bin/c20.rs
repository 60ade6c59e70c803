//! C20: random streams are reproducible, in range, finite and independent of threads
use essay_tensor::init::{random_normal, random_uniform, Normal, Uniform};
use essay_tensor::random::{random_seed, Rand32, Rand64};
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use vharness::prelude::*;

// the published generator: https://nullprogram.com/blog/2019/11/19/
const A: u64 = 0x4822581B885237D5;
const C: u64 = 0x6ED29E641A5F9CE5;
const K: u32 = 0x8A53002D;
const A2: u128 = 0xACAEAEFB4BF4A6A78B6E278B66409E7D;
const C2: u128 = 0x351402A3544A25016AEE39FBBADBB38D;
const K2: u64 = 0xA18E4C689403AE2D;

/// the normal draw of two uniform ones, and by how much an error of `eps` in
/// the first may move it: much, where it is near one and the radius near zero
/// The smallest uniform draws may be clamped anywhere below the first non-zero one.
fn polar(a: f64, b: f64, eps: f64, top: f64) -> (f64, f64) {
    let r = (-2. * a.ln()).sqrt();
    let slack = if r * r > 4. * eps { 2. * eps / r } else { (6. * eps).sqrt() };
    (r * (std::f64::consts::TAU * b).cos(), if r > top { f64::INFINITY } else { slack + 16. * eps * r })
}

struct Ref32(u64);
impl Ref32 {
    fn next(&mut self) -> u32 {
        self.0 = self.0.wrapping_mul(A).wrapping_add(C);
        let r = (self.0 >> 32) as u32;
        (r ^ r >> 16).wrapping_mul(K)
    }
    fn uniform(&mut self) -> f64 {
        self.next() as f64 / u32::MAX as f64
    }
    fn normal(&mut self) -> (f64, f64) {
        let (a, b) = (self.uniform(), self.uniform());
        polar(a.max(f32::MIN_POSITIVE as f64), b, f32::EPSILON as f64, 6.4)
    }
}
struct Ref64(u128);
impl Ref64 {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(A2).wrapping_add(C2);
        let r = (self.0 >> 32) as u64;
        (r ^ r >> 32).wrapping_mul(K2)
    }
    fn uniform(&mut self) -> f64 {
        self.next() as f64 / u64::MAX as f64
    }
    fn normal(&mut self) -> (f64, f64) {
        let (a, b) = (self.uniform(), self.uniform());
        polar(a.max(f64::MIN_POSITIVE), b, 8. * f64::EPSILON, 9.)
    }
}

fn inv(a: u128) -> u128 {
    let mut x = a;
    for _ in 0..8 {
        x = x.wrapping_mul(2u128.wrapping_sub(a.wrapping_mul(x)));
    }
    x
}

/// the state whose next output is `out`
fn before32(out: u32, low: u32) -> u64 {
    let r = out.wrapping_mul(inv(K as u128) as u32);
    let r = r ^ r >> 16;
    ((r as u64) << 32 | low as u64).wrapping_sub(C).wrapping_mul(inv(A as u128) as u64)
}
fn before64(out: u64, low: u32, high: u32) -> u128 {
    let r = out.wrapping_mul(inv(K2 as u128) as u64);
    let r = r ^ r >> 32;
    ((high as u128) << 96 | (r as u128) << 32 | low as u128).wrapping_sub(C2).wrapping_mul(inv(A2))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Start {
    Seed(u64, u64),
    /// state from which this output comes next
    Output(u64, u32, u32),
    Text(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stream {
    start: Start,
    /// 0 number, 1 uniform, 2 normal
    draws: Vec<u8>,
}

fn stream(c: &Stream, ctx: &mut Ctx) -> R {
    ctx.nt(c.draws.len() > 1);
    let (mut a, mut x, mut b, mut y) = match &c.start {
        Start::Seed(s, t) => {
            ctx.label("seed");
            let w = (*t as u128) << 64 | *s as u128;
            (Rand32(*s), Ref32(*s), Rand64(w), Ref64(w))
        }
        Start::Output(o, low, high) => {
            ctx.label("chosen output");
            let (s, w) = (before32(*o as u32, *low), before64(*o, *low, *high));
            assert!(Ref32(s).next() == *o as u32 && Ref64(w).next() == *o);
            (Rand32(s), Ref32(s), Rand64(w), Ref64(w))
        }
        Start::Text(t) => {
            ctx.label("text");
            let s = t.bytes().fold(0u64, |s, v| s.wrapping_mul(A).wrapping_add(C).wrapping_add(v as u64));
            let w = t.bytes().fold(0u128, |s, v| s.wrapping_mul(A2).wrapping_add(C2).wrapping_add(v as u128));
            (Rand32::from(t.as_str()), Ref32(s), Rand64::from(t.as_str()), Ref64(w))
        }
    };
    let what = |k: usize| format!("draw {} of {:?} after {:?}", k, c.start, &c.draws[..k]);
    for (k, d) in c.draws.iter().enumerate() {
        match d % 3 {
            0 => {
                let (g, w) = (a.next(), x.next());
                ensure!(g == w, "{}: Rand32 gives {}, expected {}", what(k), g, w);
                let (g, w) = (b.next(), y.next());
                ensure!(g == w, "{}: Rand64 gives {}, expected {}", what(k), g, w);
            }
            1 => {
                let (g, w) = (a.next_uniform(), x.uniform());
                ensure!((0. ..=1.).contains(&g), "{}: Rand32 uniform {} is not in [0, 1]", what(k), g);
                ensure!((g as f64 - w).abs() <= 1e-6, "{}: Rand32 uniform {}, expected {}", what(k), g, w);
                let (g, w) = (b.next_uniform(), y.uniform());
                ensure!((0. ..=1.).contains(&g), "{}: Rand64 uniform {} is not in [0, 1]", what(k), g);
                ensure!((g - w).abs() <= 1e-14, "{}: Rand64 uniform {}, expected {}", what(k), g, w);
            }
            _ => {
                let (g, (w, slack)) = (a.next_normal(), x.normal());
                ensure!(g.is_finite(), "{}: Rand32 normal {}", what(k), g);
                ensure!((g as f64 - w).abs() <= 1e-5 * (1. + w.abs()) + slack, "{}: Rand32 normal {}, expected {}", what(k), g, w);
                let (g, (w, slack)) = (b.next_normal(), y.normal());
                ensure!(g.is_finite(), "{}: Rand64 normal {}", what(k), g);
                ensure!((g - w).abs() <= 1e-12 * (1. + w.abs()) + slack, "{}: Rand64 normal {}, expected {}", what(k), g, w);
            }
        }
    }
    Ok(())
}

fn phi(x: f64) -> f64 {
    // Abramowitz and Stegun 7.1.26, absolute error below 1.5e-7
    let z = x.abs() / std::f64::consts::SQRT_2;
    let t = 1. / (1. + 0.3275911 * z);
    let e = 1. - (((((1.061405429 * t - 1.453152027) * t) + 1.421413741) * t - 0.284496736) * t + 0.254829592) * t * (-z * z).exp();
    if x >= 0. { 0.5 + e / 2. } else { 0.5 - e / 2. }
}

/// Kolmogorov-Smirnov distance, scaled
fn ks(mut v: Vec<f64>, cdf: impl Fn(f64) -> f64) -> f64 {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = v.len() as f64;
    let mut d: f64 = 0.;
    for (i, x) in v.iter().enumerate() {
        let c = cdf(*x);
        d = d.max((c - i as f64 / n).abs()).max((c - (i + 1) as f64 / n).abs());
    }
    d * n.sqrt()
}

fn distribution(c: &(u64, u64), ctx: &mut Ctx) -> R {
    ctx.nt(true);
    let n = 6000;
    // probability below 2 exp(-2 * 3.2^2) < 3e-9 per test for a fair generator
    let lim = 3.2;
    let mut a = Rand32(c.0);
    let mut b = Rand64((c.1 as u128) << 64 | c.0 as u128);
    for (name, v, normal) in [
        ("Rand32 uniform", (0..n).map(|_| a.next_uniform() as f64).collect::<Vec<_>>(), false),
        ("Rand32 normal", (0..n).map(|_| a.next_normal() as f64).collect(), true),
        ("Rand64 uniform", (0..n).map(|_| b.next_uniform()).collect(), false),
        ("Rand64 normal", (0..n).map(|_| b.next_normal()).collect(), true),
        ("random_normal", random_normal([n], Normal::seed(c.0)).iter().map(|x| *x as f64).collect(), true),
    ] {
        ensure!(v.iter().all(|x| x.is_finite()), "{} of seed {}: not finite", name, c.0);
        let d = if normal { ks(v, phi) } else { ks(v, |x| x.clamp(0., 1.)) };
        ensure!(d < lim, "{} of seed {}: distance from the distribution {}", name, c.0, d);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Filled {
    shape: Vec<usize>,
    seed: u64,
    /// settings in the order they are made
    set: Vec<(u8, f32)>,
    first: u8,
    threads: bool,
}

fn normal_opt(c: &Filled) -> (Normal, f32, f32, u64) {
    let p = |k: usize| c.set.get(k).map(|s| s.1).unwrap_or(2.);
    let mut seed = if c.first % 6 == 0 || c.first % 6 == 4 { Some(c.seed) } else { None };
    let (mut o, mut mean, mut std) = match c.first % 6 {
        0 => (Normal::seed(c.seed), 0., 1.),
        1 => (Normal::mean(p(0)), p(0), 1.),
        2 => (Normal::std(p(0)), 0., p(0)),
        3 => (Normal::from((p(0), p(1))), p(0), p(1)),
        4 => (Normal::from(Some(c.seed)), 0., 1.),
        _ => (Normal::default(), 0., 1.),
    };
    for (k, v) in &c.set {
        match k % 3 {
            0 => { o = o.with_mean(*v); mean = *v }
            1 => { o = o.with_std(*v); std = *v }
            _ => { let s = c.seed.wrapping_add(*v as i64 as u64); o = o.with_seed(s); seed = Some(s) }
        }
    }
    // at the end when it was not set before, or again
    if seed.is_none() || c.first >= 128 {
        o = o.with_seed(c.seed);
        seed = Some(c.seed);
    }
    (o, mean, std, seed.unwrap())
}

fn uniform_opt(c: &Filled) -> (Uniform, f32, f32, u64) {
    let p = |k: usize| c.set.get(k).map(|s| s.1).unwrap_or(2.);
    let mut seed = if c.first % 6 == 0 || c.first % 6 == 4 { Some(c.seed) } else { None };
    let (mut o, mut min, mut max) = match c.first % 6 {
        0 => (Uniform::seed(c.seed), 0., 1.),
        1 => (Uniform::min(p(0)), p(0), 1.),
        2 => (Uniform::max(p(0)), 0., p(0)),
        3 => (Uniform::from((p(0), p(1))), p(0), p(1)),
        4 => (Uniform::from(Some(c.seed)), 0., 1.),
        _ => (Uniform::default(), 0., 1.),
    };
    for (k, v) in &c.set {
        match k % 3 {
            0 => { o = o.with_min(*v); min = *v }
            1 => { o = o.with_max(*v); max = *v }
            _ => { let s = c.seed.wrapping_add(*v as i64 as u64); o = o.with_seed(s); seed = Some(s) }
        }
    }
    // at the end when it was not set before, or again
    if seed.is_none() || c.first >= 128 {
        o = o.with_seed(c.seed);
        seed = Some(c.seed);
    }
    (o, min, max, seed.unwrap())
}

fn filled(c: &Filled, ctx: &mut Ctx) -> R {
    let n = size(&c.shape);
    ctx.nt(n > 1);
    ctx.label(&format!("rank {}", c.shape.len()));
    let (o, mean, std, seed) = normal_opt(c);
    let what = format!("random_normal of {:?}, mean {}, std {}, seed {}", c.shape, mean, std, seed);
    let mut r = Ref32(seed);
    let want = M::new(c.shape.clone(), (0..n).map(|_| r.normal()).collect::<Vec<_>>());
    let t = accepts(|| what.clone(), || random_normal(c.shape.as_slice(), o))?;
    let scaled = |a: f64, b: f64, g: f32, (p, slack): (f64, f64)| (g as f64 - (a + b * p)).abs() <= 1e-5 * (a.abs() + b.abs() * (1. + p.abs())) + b.abs() * slack || slack.is_infinite();
    expect_by(&what, &t, &want, |g, p| scaled(mean as f64, std as f64, *g, *p))?;
    let again = Tensor::random_normal(c.shape.as_slice(), o);
    expect("again", &again, &to_model(&t))?;
    let (o, min, max, seed) = uniform_opt(c);
    let what = format!("random_uniform of {:?}, min {}, max {}, seed {}", c.shape, min, max, seed);
    let t = accepts(|| what.clone(), || random_uniform(c.shape.as_slice(), o))?;
    expect("again", &Tensor::random_uniform(c.shape.as_slice(), o), &to_model(&t))?;
    let width = (max - min).max(0.) as f64;
    let mut r = Ref32(seed);
    let uni = M::new(c.shape.clone(), (0..n).map(|_| (r.uniform(), 0.)).collect::<Vec<_>>());
    let proper = expect_by(&what, &t, &uni, |g, p| scaled(min as f64, width, *g, *p) && (*g as f64) >= min as f64 - 1e-6 * (min.abs() as f64 + width));
    if let Err(e) = proper {
        // listed finding: draws from the normal instead of the uniform distribution
        let mut r = Ref32(seed);
        let want = M::new(c.shape.clone(), (0..n).map(|_| r.normal()).collect::<Vec<_>>());
        let slip = expect_by(&what, &t, &want, |g, p| scaled(min as f64, width, *g, *p));
        if slip.is_err() {
            return Err(e);
        }
        ctx.known("random-uniform-draws-normal");
    }
    if c.threads {
        ctx.label("on another thread");
        let c2 = c.clone();
        let (a, b) = std::thread::spawn(move || (random_normal(c2.shape.as_slice(), normal_opt(&c2).0), random_uniform(c2.shape.as_slice(), uniform_opt(&c2).0)))
            .join().map_err(|_| "a thread filling a tensor panicked".to_string())?;
        expect("random_normal on another thread", &a, &to_model(&again))?;
        expect("random_uniform on another thread", &b, &to_model(&t))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chain {
    seed: u64,
    threads: usize,
    draws: usize,
}

/// a tensor in every form that names no seed
fn unseeded() -> Vec<Vec<f32>> {
    let t = [
        random_normal([3], None),
        random_normal([3], Normal::default()),
        random_normal([3], Normal::mean(0.)),
        random_normal([3], Normal::std(1.)),
        random_normal([3], (0., 1.)),
        Tensor::random_normal([3], Normal::mean(1.).with_std(2.).with_mean(0.).with_std(1.)),
        random_uniform([3], None),
        random_uniform([3], Uniform::default()),
        random_uniform([3], Uniform::min(0.)),
        random_uniform([3], Uniform::max(1.)),
        random_uniform([3], (0., 1.)),
        Tensor::random_uniform([3], Uniform::max(2.).with_min(0.).with_max(1.)),
    ];
    t.iter().map(|t| t.iter().cloned().collect()).collect()
}

/// what a new thread sees: generators, numbers and an unseeded tensor
fn look(draws: usize) -> (Vec<u64>, Vec<f32>) {
    let mut v = vec![];
    for k in 0..draws {
        if k % 2 == 0 {
            v.push(Rand32::new().0);
        } else {
            v.push(Rand64::new().next());
        }
    }
    (v, unseeded().into_iter().flatten().collect())
}

fn chain(c: &Chain, ctx: &mut Ctx) -> R {
    ctx.nt(c.threads > 1);
    let go = || -> Vec<(Vec<u64>, Vec<f32>)> {
        random_seed(c.seed);
        (0..c.threads).map(|_| std::thread::spawn({ let d = c.draws; move || look(d) }).join().expect("a thread drawing numbers panicked")).collect()
    };
    let (a, b) = (go(), go());
    if a.iter().any(|x| x.1.iter().any(|v| !v.is_finite())) {
        return Err(format!("seed {}: an unseeded tensor has an element that is not finite", c.seed));
    }
    let bits = |x: &Vec<(Vec<u64>, Vec<f32>)>| x.iter().map(|t| (t.0.clone(), t.1.iter().map(|v| v.to_bits()).collect::<Vec<_>>())).collect::<Vec<_>>();
    ensure!(bits(&a) == bits(&b), "seed {}: successive threads see {:?} and, seeded again, {:?}", c.seed, a, b);
    // no two of them alike, in one thread or in two
    let mut seen = HashSet::new();
    for (k, t) in bits(&a).iter().enumerate() {
        for (i, v) in t.1.chunks(3).enumerate() {
            ensure!(seen.insert(v.to_vec()), "seed {}: unseeded tensor {} of thread {} repeats an earlier one: {:?}", c.seed, i, k, &a[k].1[3 * i..3 * i + 3]);
        }
    }
    let firsts: HashSet<u64> = a.iter().map(|x| x.0[0]).collect();
    ensure!(firsts.len() == c.threads, "seed {}: two of {} successive threads receive the same stream: {:?}", c.seed, c.threads, a.iter().map(|x| x.0[0]).collect::<Vec<_>>());
    Ok(())
}

/// very many successive threads
fn many(c: &Chain, ctx: &mut Ctx) -> R {
    ctx.nt(true);
    random_seed(c.seed);
    let mut seen = std::collections::HashMap::new();
    for k in 0..c.threads {
        let v = std::thread::Builder::new().stack_size(64 << 10).spawn(|| Rand32::new().0).unwrap().join().expect("a thread drawing a number panicked");
        if let Some(j) = seen.insert(v, k) {
            return Err(format!("seed {}: threads {} and {} of {} successive ones receive the same stream: {}", c.seed, j, k, c.threads, v));
        }
    }
    Ok(())
}

const CHILD: &str = "VH_C20_CHILD";

fn successive(c: &Chain) -> String {
    random_seed(c.seed);
    let v: Vec<(Vec<u64>, Vec<u32>)> = (0..c.threads)
        .map(|_| std::thread::spawn({ let d = c.draws; move || look(d) }).join().expect("a thread drawing numbers panicked"))
        .map(|x| (x.0, x.1.iter().map(|v| v.to_bits()).collect()))
        .collect();
    format!("{:?}", v)
}

/// another process sees the same streams after setting the same seed
fn process(c: &Chain, ctx: &mut Ctx) -> R {
    ctx.nt(true);
    let here = successive(c);
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .env(CHILD, serde_json::to_string(c).unwrap())
        .output()
        .map_err(|e| format!("no child process: {}", e))?;
    let there = String::from_utf8_lossy(&out.stdout).trim().to_string();
    ensure!(here == there, "seed {}: threads of this process see {} and those of another {}", c.seed, here, there);
    Ok(())
}

/// many threads start drawing at the same moment
fn race(c: &Chain, ctx: &mut Ctx) -> R {
    ctx.nt(true);
    ctx.label(if c.seed == 0 { "no seed set" } else { "seed set" });
    random_seed(c.seed);
    let gate = Arc::new(AtomicUsize::new(0));
    let n = c.threads;
    let hs: Vec<_> = (0..n)
        .map(|_| {
            let gate = gate.clone();
            std::thread::spawn(move || {
                gate.fetch_add(1, Ordering::SeqCst);
                let mut spins = 0u32;
                while gate.load(Ordering::Relaxed) < n {
                    spins += 1;
                    if spins % 4096 == 0 {
                        std::thread::yield_now();
                    }
                    std::hint::spin_loop();
                }
                Rand32::new().0
            })
        })
        .collect();
    let v: Vec<u64> = hs.into_iter().map(|h| h.join().expect("a thread drawing a number panicked")).collect();
    let d: HashSet<u64> = v.iter().cloned().collect();
    ensure!(d.len() == n, "seed {}: {} concurrent threads receive only {} different streams: {:?}", c.seed, n, d.len(), v);
    Ok(())
}

fn main() {
    if let Ok(c) = std::env::var(CHILD) {
        println!("{}", successive(&serde_json::from_str(&c).unwrap()));
        return;
    }
    let word = || prop_oneof![2 => any::<u64>(), 1 => 0u64..20, 1 => (0u32..64).prop_map(|k| 1u64 << k), 1 => (0u64..20).prop_map(|k| u64::MAX - k)];
    let out = || prop_oneof![3 => (0u32..65).prop_map(|k| if k == 64 { 0 } else { (1u64 << k) - 1 }), 2 => (0u32..64).prop_map(|k| 1u64 << k), 2 => any::<u64>(), 2 => (0u64..4).prop_map(|k| u64::MAX - k), 2 => (0u64..4).prop_map(|k| (k as u32 as u64) | k << 32), 1 => Just(0u64)];
    let start = prop_oneof![
        3 => (word(), word()).prop_map(|(a, b)| Start::Seed(a, b)),
        3 => (out(), any::<u32>(), any::<u32>()).prop_map(|(o, l, h)| Start::Output(o, l, h)),
        1 => prop::collection::vec(prop_oneof![3 => 32u32..127, 1 => 0u32..0xD000], 0..12).prop_map(|v| Start::Text(v.into_iter().filter_map(char::from_u32).collect())),
    ];
    let param = || prop_oneof![2 => -20i32..20, 1 => -2000i32..2000].prop_map(|k| k as f32 / 4.);
    let fill = |cap: usize| (mshape(0, 6, cap), word(), prop::collection::vec((0u8..3, param()), 0..4), any::<u8>(), prop::bool::weighted(0.1))
        .prop_map(|(shape, seed, set, first, threads)| Filled { shape, seed, set, first, threads });
    vharness::fw::main(Prop {
        id: "C20",
        rule: "a case is a seed (or a state with a chosen next output, or a text) and a history of draws, a tensor with its settings, or a set of threads; non-trivial: more than one draw, element or thread",
        subs: vec![
            sub("stream", 80_000, (start, prop::collection::vec(0u8..3, 1..30)).prop_map(|(start, draws)| Stream { start, draws }), stream),
            sub("distribution", 160, (word(), word()), distribution),
            sub("filled", 30_000, fill(200), filled),
            sub("filled_large", 60, fill(70_000), filled),
            sub("chain", 600, (word().prop_filter("zero means unset", |s| *s != 0), 1usize..6, 1usize..5).prop_map(|(seed, threads, draws)| Chain { seed, threads, draws }), chain),
            sub("chain_long", 24, (word().prop_filter("zero means unset", |s| *s != 0), 100usize..400).prop_map(|(seed, threads)| Chain { seed, threads, draws: 1 }), chain),
            sub("chain_many", 4, (word().prop_filter("zero means unset", |s| *s != 0), 15_000usize..200_000).prop_map(|(seed, threads)| Chain { seed, threads, draws: 1 }), many),
            sub("process", 300, (word().prop_filter("zero means unset", |s| *s != 0), 1usize..6, 1usize..5).prop_map(|(seed, threads, draws)| Chain { seed, threads, draws }), process),
            sub("race", 16_000, (prop_oneof![4 => word(), 1 => Just(0u64)], 2usize..9).prop_map(|(seed, threads)| Chain { seed, threads, draws: 1 }), race),
        ],
    });
}
