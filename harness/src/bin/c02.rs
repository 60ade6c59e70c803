//! C02: tensors are immutable values
use std::sync::{Arc, Barrier};
use vharness::ops::*;
use vharness::prelude::*;
use vharness::track::{self, Cross, Tracked};
use vharness::{is_send, is_sync};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Op { op: usize, pick: [usize; 3], k: [usize; 4], x: [i32; 3], axis: isize, remember: bool },
    View { pick: usize, off: usize, len: usize },
    Clone { pick: usize },
    Drop { pick: usize },
    /// make a remembered call again
    Again { pick: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    start: ArgSpec,
    steps: Vec<Step>,
}

struct Kept<T: Type> {
    t: Tensor<T>,
    shape: Vec<usize>,
    seen: Vec<u64>,
}

fn kept<T: Bits>(t: Tensor<T>) -> Kept<T> {
    let (shape, seen) = see(&t);
    Kept { t, shape, seen }
}

fn check<T: Bits>(list: &[Kept<T>], what: &str) -> R {
    for (j, k) in list.iter().enumerate() {
        let (shape, seen) = see(&k.t);
        ensure!(shape == k.shape, "after {}: tensor {} of shape {:?} now reports {:?}", what, j, k.shape, shape);
        if seen != k.seen {
            let at = seen.iter().zip(&k.seen).position(|(a, b)| a != b);
            return Err(format!("after {}: tensor {} of shape {:?} changed at {:?}: {:?} was {:?}", what, j, k.shape, at,
                at.map(|i| seen[i]), at.map(|i| k.seen[i])));
        }
    }
    Ok(())
}

const CAP: usize = 400;
const POOL: usize = 14;

fn add<T: Bits>(pool: &mut Vec<Kept<T>>, new: Vec<Tensor<T>>, salt: usize) {
    for (j, t) in new.into_iter().enumerate() {
        if t.size() > CAP || t.size() == 0 {
            continue;
        }
        if pool.len() >= POOL {
            let k = (salt + 3 * j) % pool.len();
            pool.swap_remove(k);
        }
        pool.push(kept(t));
    }
}

fn history(c: &History, ctx: &mut Ctx) -> R {
    let a = c.start.build(true);
    let mut f: Vec<Kept<f32>> = a.f.into_iter().map(kept).collect();
    let mut i: Vec<Kept<i32>> = a.i.into_iter().map(kept).collect();
    let mut s: Vec<Kept<String>> = a.s.into_iter().map(kept).collect();
    let d: Vec<Kept<f64>> = a.d.into_iter().map(kept).collect();
    let u: Vec<Kept<u32>> = a.u.into_iter().map(kept).collect();
    let z: Vec<Kept<C32>> = a.c.into_iter().map(kept).collect();
    let mut memory: Vec<(usize, Args, Option<Seen>)> = vec![];
    let mut accepted = 0;
    for (n, st) in c.steps.iter().enumerate() {
        let mut what = format!("step {}", n);
        match st {
            Step::Op { op, pick, k, x, axis, remember } => {
                fn three<T: Type>(p: &[Kept<T>], pick: &[usize; 3]) -> Vec<Tensor<T>> {
                    let first = &p[pick[0] % p.len()];
                    // prefer operands that fit the first
                    let like: Vec<&Kept<T>> = p.iter().filter(|k| is_suffix(&k.shape, &first.shape)).collect();
                    let get = |n: usize| if n % 3 > 0 { like[n / 3 % like.len()].t.clone() } else { p[n / 3 % p.len()].t.clone() };
                    vec![first.t.clone(), get(pick[1]), get(pick[2])]
                }
                let args = Args {
                    f: three(&f, pick), d: three(&d, pick), i: three(&i, pick), u: three(&u, pick), c: three(&z, pick), s: three(&s, pick),
                    k: *k, x: [x[0] as f32 / 8., x[1] as f32 / 8., x[2] as f32 / 8.], axis: *axis,
                };
                let name = OPS[op % OPS.len()].0;
                what = format!("step {} ({})", n, name);
                let r = call(*op, &args);
                let seen = r.as_ref().map(|o| o.seen.clone());
                // at once, the same call gives the same result
                let again = call(*op, &args).map(|o| o.seen);
                ensure!(seen == again, "{}: called twice: {} and {}", what, describe(&seen), describe(&again));
                if *remember && memory.len() < 12 {
                    memory.push((*op, args, seen));
                }
                ctx.label(name);
                if let Some(o) = r {
                    accepted += 1;
                    add(&mut f, o.f, k[0]);
                    add(&mut i, o.i, k[1]);
                    add(&mut s, o.s, k[2]);
                }
            }
            Step::View { pick, off, len } => {
                let k = &f[pick % f.len()];
                let n = k.t.size();
                let off = off % n;
                let len = 1 + len % (n - off);
                if let Some(t) = attempt(|| k.t.subslice_flat(off, len, [len])) {
                    add(&mut f, vec![t], *pick);
                }
                let k = &s[pick % s.len()];
                if k.shape.len() > 0 {
                    let n = k.shape[0];
                    let off = off % n;
                    if let Some(t) = attempt(|| k.t.subslice(off, n - off)) {
                        add(&mut s, vec![t], *pick);
                    }
                }
            }
            Step::Clone { pick } => {
                let t = f[pick % f.len()].t.clone();
                add(&mut f, vec![t], *pick);
                let t = i[pick % i.len()].t.clone();
                add(&mut i, vec![t], *pick);
            }
            Step::Drop { pick } => {
                if f.len() > 1 {
                    let k = pick % f.len();
                    f.remove(k);
                }
                if s.len() > 1 {
                    let k = pick % s.len();
                    s.remove(k);
                }
            }
            Step::Again { pick } => {
                if !memory.is_empty() {
                    let (op, args, want) = &memory[pick % memory.len()];
                    let got = call(*op, args).map(|o| o.seen);
                    ensure!(&got == want, "step {}: {} made again gives {}, before {}", n, OPS[op % OPS.len()].0, describe(&got), describe(want));
                }
            }
        }
        check(&f, &what)?;
        check(&i, &what)?;
        check(&s, &what)?;
    }
    check(&d, "the history")?;
    check(&u, "the history")?;
    check(&z, "the history")?;
    for (op, args, want) in &memory {
        let got = call(*op, args).map(|o| o.seen);
        ensure!(&got == want, "{} made again at the end gives {}, before {}", OPS[op % OPS.len()].0, describe(&got), describe(want));
    }
    // and from another thread, on equal operands freshly built there
    if memory.len() > 1 {
        let m = Cross(memory);
        let r = std::thread::spawn(move || {
            let m = m.into();
            for (op, args, want) in &m {
                let got = call(*op, args).map(|o| o.seen);
                if &got != want {
                    return Err(format!("{} made on another thread gives {}, before {}", OPS[op % OPS.len()].0, describe(&got), describe(want)));
                }
            }
            Ok(())
        })
        .join();
        match r {
            Ok(r) => r?,
            Err(_) => return Err("the thread repeating the calls panicked".to_string()),
        }
        ctx.label("repeated on another thread");
    }
    ctx.nt(accepted >= 2);
    Ok(())
}

fn steps() -> BoxedStrategy<Vec<Step>> {
    let n = || 0usize..3000;
    let step = prop_oneof![
        12 => ((0..OPS.len()), prop::array::uniform3(n()), prop::array::uniform4(n()), prop::array::uniform3(-40i32..40), -3isize..=3, any::<bool>())
            .prop_map(|(op, pick, k, x, axis, remember)| Step::Op { op, pick, k, x, axis, remember }),
        2 => (n(), n(), n()).prop_map(|(pick, off, len)| Step::View { pick, off, len }),
        1 => n().prop_map(|pick| Step::Clone { pick }),
        2 => n().prop_map(|pick| Step::Drop { pick }),
        1 => n().prop_map(|pick| Step::Again { pick }),
    ];
    prop::collection::vec(step, 1..=20).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Threads {
    args: ArgSpec,
    ops: Vec<usize>,
    threads: usize,
    rounds: usize,
}

fn copy(a: &Args) -> Args {
    Args { f: a.f.clone(), d: a.d.clone(), i: a.i.clone(), u: a.u.clone(), c: a.c.clone(), s: a.s.clone(), k: a.k, x: a.x, axis: a.axis }
}

fn threads(c: &Threads, ctx: &mut Ctx) -> R {
    let a = Arc::new(Cross(c.args.build(true)));
    let want: Vec<Option<Seen>> = c.ops.iter().map(|op| call(*op, &a.get()).map(|o| o.seen)).collect();
    let before: Vec<_> = a.get().f.iter().map(see).collect();
    ctx.nt(want.iter().any(|w| w.is_some()));
    let want = Arc::new(want);
    let ops = Arc::new(c.ops.clone());
    let bar = Arc::new(Barrier::new(c.threads));
    let mut hs = vec![];
    for t in 0..c.threads {
        let (a, want, ops, bar, rounds) = (a.clone(), want.clone(), ops.clone(), bar.clone(), c.rounds);
        hs.push(std::thread::spawn(move || -> R {
            bar.wait();
            for r in 0..rounds {
                for n in 0..ops.len() {
                    let n = (n + t + r) % ops.len();
                    let mine = copy(a.get());
                    let o = call(ops[n], &mine);
                    drop(mine);
                    let got = o.map(|o| o.seen);
                    if got != want[n] {
                        return Err(format!("{} on thread {} of {}: {}, alone: {}", OPS[ops[n] % OPS.len()].0, t, rounds, describe(&got), describe(&want[n])));
                    }
                }
            }
            Ok(())
        }));
    }
    let mut res = Ok(());
    for h in hs {
        match h.join() {
            Ok(r) => res = res.and(r),
            Err(_) => res = res.and(Err("a thread panicked".to_string())),
        }
    }
    res?;
    let after: Vec<_> = a.get().f.iter().map(see).collect();
    ensure!(before == after, "operands changed while threads worked on them");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sharing {
    shape: Vec<usize>,
    seed: u32,
    threads: usize,
    rounds: usize,
    /// what each thread does with its handle
    acts: Vec<u8>,
}

/// clone, view, read and drop one storage from many threads
fn sharing(c: &Sharing, ctx: &mut Ctx) -> R {
    track::reset();
    let n = size(&c.shape);
    let want: Vec<u32> = (0..n).map(|i| track::value(c.seed, i)).collect();
    let t = Tensor::from_vec(want.iter().map(|v| track::Heap::make(*v)).collect(), c.shape.as_slice());
    let want = Arc::new(want);
    let bar = Arc::new(Barrier::new(c.threads));
    let mut hs = vec![];
    for k in 0..c.threads {
        let (t, want, bar, rounds, acts) = (Cross(t.clone()), want.clone(), bar.clone(), c.rounds, c.acts.clone());
        hs.push(std::thread::spawn(move || -> R {
            let t = t.into();
            bar.wait();
            let ok = |t: &Tensor<track::Heap>, off: usize, len: usize| -> R {
                ensure!(t.size() == len, "view of {} elements reports {}", len, t.size());
                for (i, e) in t.as_slice().iter().enumerate() {
                    ensure!(e.id().is_some() && e.val() == want[off + i], "thread {}: element {} of a shared tensor changed", k, off + i);
                }
                Ok(())
            };
            for r in 0..rounds {
                match acts[(r + k) % acts.len()] % 4 {
                    0 => {
                        let x = t.clone();
                        let y = x.clone();
                        drop(x);
                        ok(&y, 0, n)?;
                    }
                    1 => {
                        let off = (r * 7 + k) % n;
                        let v = t.subslice_flat(off, n - off, [n - off]);
                        ok(&v, off, n - off)?;
                    }
                    2 => {
                        let v: Vec<_> = (0..8).map(|_| t.clone()).collect();
                        ok(&v[7], 0, n)?;
                    }
                    _ => {
                        let v = t.clone().flatten().clone();
                        drop(v);
                    }
                }
            }
            ok(&t, 0, n)
        }));
    }
    drop(t);
    let mut res = Ok(());
    for h in hs {
        match h.join() {
            Ok(r) => res = res.and(r),
            Err(_) => res = res.and(Err("a thread panicked".to_string())),
        }
    }
    res?;
    ctx.nt(c.threads > 1);
    if let Some(e) = track::error() {
        return Err(e);
    }
    let left = track::live_count();
    track::reset();
    ensure!(left == 0, "{} elements live on after every handle is gone", left);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Reuse {
    args: ArgSpec,
    ops: Vec<usize>,
    other: u32,
    views: bool,
    rounds: usize,
}

/// in the reverse order of construction, so that the next ones built take their places
fn leave(mut a: Args) {
    macro_rules! all { ($($x:ident)*) => { $( while let Some(t) = a.$x.pop() { drop(t); } )* } }
    all!(s c u i d f);
}

/// operands of one call take the place in memory of the operands of another that are gone
fn reuse(c: &Reuse, ctx: &mut Ctx) -> R {
    let before = vharness::alloc::REUSE.swap(true, std::sync::atomic::Ordering::SeqCst);
    let r = reused(c, ctx);
    vharness::alloc::REUSE.store(before, std::sync::atomic::Ordering::SeqCst);
    r
}

fn reused(c: &Reuse, ctx: &mut Ctx) -> R {
    let one = c.args.clone();
    let mut two = c.args.clone();
    two.v.seed ^= c.other;
    let (a, b) = (one.build(c.views), two.build(c.views));
    for op in &c.ops {
        let name = OPS[op % OPS.len()].0;
        let wa = call(*op, &a).map(|o| o.seen);
        let wb = call(*op, &b).map(|o| o.seen);
        ctx.label_if(wa.is_some(), name);
        ctx.nt(wa.is_some() || wb.is_some());
        let mut last = 0;
        for r in 0..c.rounds {
            let (spec, want) = if r % 2 == 0 { (&one, &wa) } else { (&two, &wb) };
            let x = spec.build(c.views);
            let here = x.f[0].as_slice().as_ptr() as usize;
            ctx.label_if(here == last, "at the address of operands that are gone");
            last = here;
            let got = call(*op, &x).map(|o| o.seen);
            ensure!(&got == want, "{} gives {}, and on equal operands that take the place of others {}", name, describe(want), describe(&got));
            leave(x);
        }
        for (x, want) in [(&a, &wa), (&b, &wb)] {
            let got = call(*op, x).map(|o| o.seen);
            ensure!(&got == want, "{} gives {}, and later {}", name, describe(want), describe(&got));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Inside {
    args: ArgSpec,
    outer: usize,
    /// made inside a closure of the outer operation, and again by itself
    inner: Vec<usize>,
    /// the calls of the closure that make them
    at: Vec<usize>,
    /// the call of the closure that panics
    panic_at: usize,
}

const OUTER: &[&str] = &["map", "map2", "map3", "map_row", "map_expand", "fold", "fold_axis", "fold_row", "reduce", "reduce_axis", "init", "init_rindexed", "normalize", "normalize none"];

/// an operation whose every call of user code goes through the hook
fn outer(kind: usize, a: &Args, hook: &mut dyn FnMut(usize)) -> (Vec<usize>, Vec<u64>) {
    let x = &a.f[0];
    let hook = std::cell::RefCell::new(hook);
    let n = std::cell::Cell::new(0);
    let tick = || {
        n.set(n.get() + 1);
        (hook.borrow_mut())(n.get() - 1);
    };
    let shape = x.shape().as_vec();
    match OUTER[kind % OUTER.len()] {
        "map" => see(&x.map(|v| { tick(); v * 0.5 })),
        "map2" => see(&x.map2(x, |v, w| { tick(); v * 0.5 + w })),
        "map3" => see(&x.map3(x, x, |v, w, u| { tick(); v * 0.5 + w * u })),
        "map_row" => see(&x.map_row(|r| { tick(); [r[0], r[r.len() - 1]] })),
        "map_expand" => see(&x.map_expand(|v| { tick(); [*v, -*v] })),
        "fold" => see(&x.fold(0f32, |s, v| { tick(); s * 0.5 + v })),
        "fold_axis" => see(&x.fold_axis(a.axis, 0f32, |s, v| { tick(); s * 0.5 + v })),
        "fold_row" => see(&x.fold_row(a.axis, [0f32, 0.], |s, r| { tick(); [s[0] * 0.5 + r[0], s[1] * 0.25 + r[r.len() - 1]] })),
        "reduce" => see(&x.reduce(|s, v| { tick(); s * 0.5 + v })),
        "reduce_axis" => see(&x.reduce_axis(a.axis, |s, v| { tick(); s * 0.5 + v })),
        "init" => see(&Tensor::<f32>::init(shape, || { tick(); n.get() as f32 })),
        "init_rindexed" => see(&Tensor::<f32>::init_rindexed(shape, |i| { tick(); i.iter().fold(0f32, |s, v| s * 64. + *v as f32) })),
        "normalize" => see(&x.normalize(a.axis, 0f32, |s, v| { tick(); s * 0.5 + v }, |s| { tick(); s + 1. }, |s, v| { tick(); v * s })),
        _ => see(&x.normalize(None, 0f32, |s, v| { tick(); s * 0.5 + v }, |s| { tick(); s + 1. }, |s, v| { tick(); v * s })),
    }
}

/// operations made by the user code that another one calls, and after user code has panicked
fn inside(c: &Inside, ctx: &mut Ctx) -> R {
    let a = c.args.build(true);
    let kind = OUTER[c.outer % OUTER.len()];
    let mut calls = 0;
    let Some(want) = attempt(|| outer(c.outer, &a, &mut |n| calls = n + 1)) else { return Ok(()) };
    // one of them may be of the kind of the outer one
    let made = |op: usize| -> Option<Seen> {
        if op < OPS.len() { call(op, &a).map(|o| o.seen) } else { None }
    };
    let own = |op: usize| attempt(|| outer(op, &a, &mut |_| ()));
    let plain: Vec<_> = c.inner.iter().map(|op| (made(*op), own(*op))).collect();
    ctx.nt(plain.iter().any(|p| p.0.is_some() || p.1.is_some()));
    ctx.label(kind);
    let at: Vec<usize> = c.at.iter().map(|k| if calls == 0 { 0 } else { k % calls }).collect();
    let mut bad = None;
    let got = attempt(|| outer(c.outer, &a, &mut |n| {
        if at.contains(&n) {
            for (op, want) in c.inner.iter().zip(&plain) {
                let got = (made(*op), own(*op));
                if bad.is_none() && got.0 != want.0 {
                    bad = Some(format!("{} gives {}, and inside call {} of a closure of {} {}", OPS[op % OPS.len()].0, describe(&want.0), n, kind, describe(&got.0)));
                }
                if bad.is_none() && got.1 != want.1 {
                    bad = Some(format!("{} gives {:?}, and inside call {} of a closure of {} {:?}", OUTER[op % OUTER.len()], want.1, n, kind, got.1));
                }
            }
        }
    }));
    if let Some(bad) = bad {
        return Err(bad);
    }
    ensure!(got.as_ref() == Some(&want), "{} gives {:?}, and with operations made inside its closure {:?}", kind, want, got);
    // user code panics
    if calls > 0 {
        let stop = c.panic_at % calls;
        let got = attempt(|| outer(c.outer, &a, &mut |n| if n == stop { panic!("user code") }));
        ensure!(got.is_none(), "{} swallowed a panic of its closure", kind);
        for (op, want) in c.inner.iter().zip(&plain) {
            let got = own(*op);
            ensure!(got == want.1, "{} gives {:?}, and after a closure of {} panicked {:?}", OUTER[op % OUTER.len()], want.1, kind, got);
            let got = made(*op);
            ensure!(got == want.0, "{} gives {}, and after a closure of {} panicked {}", OPS[op % OPS.len()].0, describe(&want.0), kind, describe(&got));
        }
        let again = attempt(|| outer(c.outer, &a, &mut |_| ()));
        ensure!(again.as_ref() == Some(&want), "{} gives {:?}, and after its closure panicked {:?}", kind, want, again);
    }
    Ok(())
}

struct SeenBy(#[allow(dead_code)] std::cell::Cell<u32>);
impl Type for SeenBy {}

fn main() {
    let th = (arg_spec(sshape(0, 4, 150), prov), prop::collection::vec(0..OPS.len(), 1..=5), 2usize..=6, 1usize..=4)
        .prop_map(|(args, ops, threads, rounds)| Threads { args, ops, threads, rounds });
    let th2 = (arg_spec(shape(1, 4, 4_000), prov), prop::collection::vec(0..OPS.len(), 1..=4), 2usize..=4, 1usize..=2)
        .prop_map(|(args, ops, threads, rounds)| Threads { args, ops, threads, rounds });
    let sh = (sshape(1, 3, 60), 0u32..10_000, 2usize..=8, 20usize..=120, prop::collection::vec(any::<u8>(), 1..=6))
        .prop_map(|(shape, seed, threads, rounds, acts)| Sharing { shape, seed, threads, rounds, acts });
    vharness::fw::main(Prop {
        id: "C02",
        rule: "history: a case is a sequence of up to 20 operations over a pool of tensors that share storage, non-trivial when at least two are accepted; threads: operations made concurrently on shared operands, non-trivial when one is accepted; sharing: clones and views of one storage on several threads",
        subs: vec![
            sub("history", 6_000, (arg_spec(sshape(0, 4, 120), prov), steps()).prop_map(|(start, steps)| History { start, steps }), history),
            sub("threads", 2_500, th, threads),
            sub("reuse", 2_500, (arg_spec(sshape(0, 4, 150), prov), prop::collection::vec(0..OPS.len(), 1..=6), 1u32..100_000, any::<bool>(), 2usize..=5)
                .prop_map(|(args, ops, other, views, rounds)| Reuse { args, ops, other, views, rounds }), reuse),
            sub("history_large", 200, (arg_spec(shape(1, 4, 4_000), prov), steps()).prop_map(|(start, steps)| History { start, steps }), history),
            sub("threads_large", 150, th2, threads),
            sub("inside", 8_000, (arg_spec(sshape(0, 4, 80), prov), 0..OUTER.len(), prop::collection::vec(0..OPS.len(), 1..=3), prop::collection::vec(0usize..80, 1..=3), 0usize..80)
                .prop_map(|(args, outer, inner, at, panic_at)| Inside { args, outer, inner, at, panic_at }), inside),
            sub("sharing", 1_500, sh, sharing),
            sub("crossing", 1, Just(0u8), |_, ctx| {
                ctx.nt(true);
                ensure!(is_send!(Tensor<f32>) && is_sync!(Tensor<f32>), "tensors of plain numbers cannot be shared between threads");
                ensure!(is_send!(Tensor<String>) && is_sync!(Tensor<String>), "tensors of strings cannot be shared between threads");
                // a thread could change the elements behind another's back
                ensure!(!is_sync!(Tensor<SeenBy>) && !is_send!(Tensor<SeenBy>), "tensors of elements that are not safe to share can be shared between threads");
                Ok(())
            }),
        ],
    });
}
