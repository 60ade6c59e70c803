//! C01: memory safety: elements are owned once, dropped once, never read out of bounds
use essay_tensor::{array, init};
use num_traits::{One, Zero};
use std::collections::{HashMap, HashSet};
use std::ops::{Add, Mul};
use vharness::alloc;
use vharness::ops::{arg_spec, call, describe, ArgSpec, OPS};
use vharness::prelude::*;
use vharness::track::{self, tick, Tracked};
use vharness::{is_send, is_sync};

trait El: Tracked + Add<Output = Self> + Mul<Output = Self> + Zero + One + PartialEq + std::fmt::Debug {}
impl<T: Tracked + Add<Output = T> + Mul<Output = T> + Zero + One + PartialEq + std::fmt::Debug> El for T {}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    /// 0: drop, 1: make, otherwise an operation
    what: u8,
    op: u8,
    pick: [usize; 3],
    n: [usize; 4],
    shape: Vec<usize>,
    axis: isize,
    /// user code panics at this call
    bomb: Option<i64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    ty: u8,
    seed: u32,
    steps: Vec<Step>,
    /// order of the final drops
    order: usize,
}

struct Kept<T: El> {
    t: Tensor<T>,
    shape: Vec<usize>,
    vals: Vec<u32>,
    /// storages it may keep alive
    tags: Vec<usize>,
}

struct World<T: El> {
    pool: Vec<Kept<T>>,
    /// element -> storage
    owner: HashMap<u64, usize>,
    next_tag: usize,
    leaked: HashSet<u64>,
    panicked: bool,
}

const CAP: usize = 260;
const POOL: usize = 10;

impl<T: El> World<T> {
    /// `from`: the storages of the operands, which a view without elements
    /// may share
    fn keep(&mut self, t: Tensor<T>, from: &[usize]) -> R {
        let vals: Vec<u32> = t.as_slice().iter().map(|e| e.val()).collect();
        let mut tag = None;
        if !T::ZERO_SIZED {
            for (i, e) in t.as_slice().iter().enumerate() {
                let Some(id) = e.id() else { return Err(format!("element {} of a new tensor of shape {:?} is not an element", i, t.shape().as_vec())) };
                ensure!(track::is_live(id), "element {} of a new tensor of shape {:?} is already dropped", i, t.shape().as_vec());
                if let Some(o) = self.owner.get(&id) {
                    ensure!(tag.is_none() || tag == Some(*o), "a tensor mixes elements of two storages");
                    tag = Some(*o);
                }
            }
        }
        let tag = tag.unwrap_or_else(|| {
            self.next_tag += 1;
            self.next_tag
        });
        if !T::ZERO_SIZED {
            for e in t.as_slice() {
                self.owner.insert(e.id().unwrap(), tag);
            }
        }
        let mut tags = vec![tag];
        if vals.is_empty() {
            tags.extend(from);
        }
        self.pool.push(Kept { shape: t.shape().as_vec(), t, vals, tags });
        Ok(())
    }

    fn audit(&mut self, what: &str) -> R {
        if let Some(e) = track::error() {
            return Err(format!("{}: {}", what, e));
        }
        let mut at: HashMap<u64, usize> = HashMap::new();
        for (j, k) in self.pool.iter().enumerate() {
            ensure!(k.t.shape().as_vec() == k.shape && k.t.size() == k.vals.len(), "{}: tensor {} changed its shape", what, j);
            for (i, e) in k.t.as_slice().iter().enumerate() {
                ensure!(e.val() == k.vals[i], "{}: tensor {} of shape {:?}: element {} was {} and is {}", what, j, k.shape, i, k.vals[i], e.val());
                if T::ZERO_SIZED {
                    continue;
                }
                let Some(id) = e.id() else { return Err(format!("{}: tensor {} element {} is no element any more", what, j, i)) };
                ensure!(track::is_live(id), "{}: tensor {} of shape {:?}: element {} has been dropped while the tensor lives", what, j, k.shape, i);
                let addr = e as *const T as usize;
                ensure!(addr % std::mem::align_of::<T>() == 0, "{}: misaligned element", what);
                if let Some(p) = at.insert(id, addr) {
                    ensure!(p == addr, "{}: one element lives at two places", what);
                }
            }
        }
        if T::ZERO_SIZED {
            let live = track::zero_sized_live();
            let most = self.pool.iter().map(|k| k.vals.len()).max().unwrap_or(0);
            ensure!(live >= most as i64, "{}: {} zero-sized elements left for a tensor of {}", what, live, most);
            return Ok(());
        }
        // nothing outlives its storage
        let tags: HashSet<usize> = self.pool.iter().flat_map(|k| k.tags.iter().copied()).collect();
        for id in track::live() {
            if self.leaked.contains(&id) {
                continue;
            }
            match self.owner.get(&id) {
                Some(t) if tags.contains(t) => {}
                Some(_) => return Err(format!("{}: an element outlives the last tensor that shares its storage", what)),
                None => return Err(format!("{}: an element made on the way was never dropped", what)),
            }
        }
        Ok(())
    }

    /// elements of an operation that did not finish may be leaked, not dropped twice
    fn forgive(&mut self) {
        for id in track::live() {
            if !self.owner.contains_key(&id) {
                self.leaked.insert(id);
            }
        }
        self.panicked = true;
    }
}

fn make<T: El>(s: &Step, seed: u32) -> Vec<Tensor<T>> {
    let n = size(&s.shape);
    let sh: &[usize] = &s.shape;
    let v = |i: usize| T::make(track::value(seed, i));
    // sometimes with room to spare
    let spare = if s.n[1] % 3 == 0 { 1 + s.n[2] % 9 } else { 0 };
    let vec = |n: usize| -> Vec<T> {
        let mut r = Vec::with_capacity(n + spare);
        r.extend((0..n).map(v));
        r
    };
    fn rows<T: El, const N: usize>(k: usize, spare: usize, v: &dyn Fn(usize) -> T) -> Vec<[T; N]> {
        let mut r = Vec::with_capacity(k + spare);
        for i in 0..k {
            r.push(std::array::from_fn(|j| v(N * i + j)));
        }
        r
    }
    // one time in a while the shape and the data disagree
    let wrong = s.n[3] % 8 == 0;
    let m = if wrong { n + 1 + s.n[2] % 3 } else { n };
    let t = match s.op % 32 {
        0 => Tensor::from_vec(vec(m), sh),
        1 => Tensor::from_box(vec(m).into_boxed_slice(), sh),
        2 => Tensor::from_scalar(v(0)),
        3 => Tensor::from(vec(n)),
        4 => Tensor::from([v(0), v(1), v(2)]),
        5 => Tensor::from(rows::<T, 3>(1 + n % 5, spare, &v)),
        6 => Tensor::from(&(0..1 + n % 4).map(|_| vec(1 + s.n[0] % 4 + if wrong { n % 2 } else { 0 })).collect::<Vec<Vec<T>>>()),
        7 => Tensor::from([[v(0), v(1)], [v(2), v(3)], [v(4), v(5)]]),
        8 => Tensor::from([[[v(0)], [v(1)]], [[v(2)], [v(3)]]]),
        9 => (0..n).map(v).collect::<Tensor<T>>(),
        10 => vec(n).iter().collect::<Tensor<T>>(),
        11 => Tensor::from_slice(vec(n)),
        12 => { let mut i = 0; Tensor::init(sh, || { tick(); i += 1; v(i) }) }
        13 => Tensor::init_rindexed(sh, |idx| { tick(); v(idx.iter().sum::<usize>()) }),
        14 => Tensor::fill(sh, v(0)),
        15 => Tensor::<T>::zeros(sh),
        16 => Tensor::<T>::ones(sh),
        17 => Tensor::<T>::eye(s.n[0] % 7),
        18 => Tensor::<T>::tri(1 + s.n[0] % 6),
        19 => Tensor::from(&vec(n)),
        20 => Tensor::from(Some(v(0))),
        21 => Tensor::from(rows::<T, 1>(n % 7, spare, &v)),
        22 => Tensor::from(rows::<T, 4>(s.n[0] % 40, spare, &v)),
        23 => Tensor::from(&rows::<T, 2>(n % 7, spare, &v)),
        24 => Tensor::from(rows::<T, 3>(1 + n % 7, spare, &v).as_slice()),
        25 => Tensor::from(&(0..1 + s.n[0] % 3).map(|i| rows::<T, 2>(1 + n % 3 + if wrong { i } else { 0 }, spare, &v)).collect::<Vec<_>>()),
        26 => Tensor::from(&(0..2).map(|i| (0..1 + n % 3).map(|_| vec(2 + if wrong { i } else { 0 })).collect::<Vec<_>>()).collect::<Vec<_>>()),
        27 => Tensor::from([[[[v(0), v(1)]], [[v(2), v(3)]], [[v(4), v(5)]]]]),
        28 => Tensor::from(vec(n).as_slice()),
        29 => Tensor::from(v(0)),
        30 => { let mut x = vec(n + 3); x.truncate(n); Tensor::from_vec(x, sh) }
        _ => Tensor::join_vec(&vec![vec(s.n[0] % 3), vec(n), vec(s.n[1] % 3)]),
    };
    vec![t]
}

fn operate<T: El>(s: &Step, a: &Tensor<T>, b: &Tensor<T>, c: &Tensor<T>) -> Vec<Tensor<T>> {
    let n = a.size();
    let ax = Axis::axis(s.axis);
    let made = |x: u32| { tick(); T::make(x) };
    let cuts = |d: usize| { let mut v = vec![s.n[0] % (d + 1), s.n[1] % (d + 1)]; v.sort(); v };
    let dim = |t: &Tensor<T>| { let r = t.rank(); if r == 0 { 1 } else { t.dim((s.axis + 8 * r as isize) as usize % r) } };
    let w = || { let off = s.n[0] % (n + 1); (off, if off == n { 0 } else { 1 + s.n[1] % (n - off) }) };
    match s.op % 64 {
        0 => vec![a.clone()],
        1 => { let (o, l) = w(); vec![a.subslice_flat(o, l, [l])] }
        2 => { let d = a.dim(0); let o = s.n[0] % d; vec![a.subslice(o, 1 + s.n[1] % (d - o))] }
        3 => vec![a.clone().flatten()],
        4 => vec![a.clone().reshape(if size(&s.shape) == n { s.shape.clone() } else { vec![n] })],
        5 => vec![a.clone().expand_dims(ax)],
        6 => vec![a.clone().squeeze(), a.clone().squeeze_axis(ax)],
        7 => vec![Tensor::from(a)],
        8 => vec![a.map(|v| made(v.val() + 1))],
        9 => { let t = a.map(|v| { tick(); (v.val() as u64, v.val().to_string()) }); vec![t.map(|v| made(v.0 as u32))] }
        10 => vec![a.map2(b, |x, y| made(x.val() ^ y.val()))],
        11 => vec![a.map3(b, c, |x, y, z| made(x.val() ^ y.val() ^ z.val()))],
        12 => vec![a.map_row(|r| [made(r[0].val()), made(r.len() as u32), made(7)])],
        13 => vec![a.map_row(|r| [made(r[r.len() - 1].val())])],
        14 => vec![a.map_expand(|v| [made(v.val()), made(1)])],
        15 => vec![a.fold(T::make(5), |s, v| made(s.val() ^ v.val()))],
        16 => vec![a.fold_axis(ax, T::make(5), |s, v| made(s.val().wrapping_add(v.val())))],
        17 => vec![a.fold_row(ax, [T::make(1), T::make(2)], |s, r| [made(s[0].val() ^ r[0].val()), made(s[1].val())])],
        18 => vec![a.reduce(|x, y| made(x.val() ^ y.val()))],
        19 => vec![a.reduce_axis(ax, |x, y| { tick(); if x.val() < y.val() { y } else { x } })],
        20 => vec![a.reduce_sum(), a.reduce_sum_axis(ax)],
        21 => vec![a.reduce_product(), a.reduce_product_axis(ax)],
        22 => vec![a.normalize(ax, T::make(3), |s, v| made(s.val() ^ v.val()), |s| { tick(); s }, |s, v| made(s.val() ^ v.val()))],
        23 => vec![a.normalize(None, vec![T::make(3)], |mut s, v| { tick(); s.push(v.clone()); s }, |s| s, |s, v| made(s.len() as u32 ^ v.val()))],
        24 => vec![array::concatenate([a, b])],
        25 => vec![array::concatenate_axis(ax, vec![a.clone(), b.clone(), a.clone()])],
        26 => vec![a.concatenate_axis(ax, [a, a])],
        27 => vec![array::stack([a, a]), array::stack_axis(ax, vec![a, a, a])],
        28 => vec![a.stack([b, c], ax)],
        29 => vec![array::hstack([a, b])],
        30 => vec![array::vstack([a, b])],
        31 => vec![array::dstack([a, b])],
        32 => vec![a.append(b)],
        33 => vec![a.append(a.clone())],
        34 => vec![Tensor::from_merge(&[a.clone(), b.clone()], [a.size() + b.size()])],
        35 => a.split(1 + s.n[0] % 4),
        36 => a.split_axis(ax, 1 + s.n[0] % 4),
        37 => a.split_axis(ax, cuts(dim(a))),
        38 => a.hsplit(cuts(s.n[2] % 5)),
        39 => a.unstack(ax),
        40 => vec![a.transpose()],
        41 => vec![array::transpose(a.clone())],
        42 => vec![a.tile([1 + s.n[0] % 3, 1 + s.n[1] % 2])],
        43 => vec![array::tile(a, [1 + s.n[0] % 4])],
        44 => vec![a.diagflat()],
        45 => vec![a.tril(), a.triu()],
        46 => a.meshgrid(b).into(),
        47 => a.meshgrid_ij(b).into(),
        48 => init::meshgrid([a.clone(), b.clone(), c.clone()]).into(),
        49 => vec![a + b],
        50 => vec![a.clone() + b.clone()],
        51 => vec![a * b.clone()],
        52 => vec![a.clone() * T::make(4)],
        53 => vec![a.square()],
        54 => { let _ = format!("{:?}", a); vec![] }
        55 => { let _ = a == b; vec![] }
        56 => { let v: Vec<T> = a.iter().cloned().collect(); vec![Tensor::from(v)] }
        57 => { let mut k = 0; for r in a.iter_row() { k += r.len(); } assert!(k <= n); vec![] }
        58 => { let x = a.as_wrap_slice(s.n[0] % 40); let y = a.as_wrap_slice_n(s.n[1] % 40, s.n[2] % 5); vec![Tensor::from(x.to_vec()), Tensor::from(y.to_vec())] }
        59 => { let v = a.get(s.n[0] % (n + 3)).cloned(); vec![Tensor::from(v)] }
        60 => vec![Tensor::from(a[s.n[0] % (n + 1)].clone())],
        // user code that itself uses and drops tensors
        61 => vec![a.map(|v| { let t = a.clone(); let u = b.clone(); drop(t); tick(); let k = u.get(0).map_or(0, |x| x.val()); drop(u); T::make(v.val() ^ k) })],
        62 => { let keep = a.subslice_flat(0, n.min(1), [n.min(1)]); vec![a.map2(a, |x, y| made(x.val() & y.val())), keep] }
        // a tensor given away
        _ => { let x = a.map(|v| made(v.val())); let y = x.clone(); drop(x); vec![y.clone().reshape([n, 1]), y] }
    }
}

fn history<T: El>(c: &History, ctx: &mut Ctx) -> R {
    track::reset();
    let mut w = World::<T> { pool: vec![], owner: HashMap::new(), next_tag: 0, leaked: HashSet::new(), panicked: false };
    let r = play(&mut w, c, ctx);
    if r.is_err() {
        // leave what is broken alone
        std::mem::forget(w);
        track::reset();
        return r;
    }
    // drop the rest in some order
    let mut k = c.order;
    while !w.pool.is_empty() {
        let n = w.pool.len();
        w.pool.remove(k % n);
        k = k / 3 + 5;
        w.audit("at the end")?;
    }
    if !w.panicked {
        ensure!(track::live_count() == 0 && track::zero_sized_live() == 0, "{} elements live on after every tensor is gone",
            track::live_count() as i64 + track::zero_sized_live());
    }
    drop(w);
    track::reset();
    Ok(())
}

fn play<T: El>(w: &mut World<T>, c: &History, ctx: &mut Ctx) -> R {
    let mut done = 0;
    for (n, s) in c.steps.iter().enumerate() {
        let what = format!("step {} (kind {}, operation {})", n, s.what.min(2), s.op % if s.what == 1 { 22 } else { 64 });
        if s.what == 0 && !w.pool.is_empty() {
            let k = s.pick[0] % w.pool.len();
            w.pool.remove(k);
        } else {
            if let Some(b) = s.bomb {
                track::set_bomb(b);
            }
            let mut from = vec![];
            let res = if s.what == 1 || w.pool.is_empty() {
                attempt(|| make::<T>(s, c.seed ^ n as u32))
            } else {
                let first = s.pick[0] % w.pool.len();
                let like: Vec<usize> = (0..w.pool.len()).filter(|k| is_suffix(&w.pool[*k].shape, &w.pool[first].shape)).collect();
                let get = |p: usize| if p % 4 > 0 { like[p / 4 % like.len()] } else { p / 4 % w.pool.len() };
                let (a, b, d) = (&w.pool[first], &w.pool[get(s.pick[1])], &w.pool[get(s.pick[2])]);
                from = [&a.tags[..], &b.tags, &d.tags].concat();
                let (a, b, d) = (&a.t, &b.t, &d.t);
                attempt(|| operate(s, a, b, d))
            };
            let fired = s.bomb.is_some() && !track::bomb_armed();
            track::set_bomb(-1);
            match res {
                Some(new) => {
                    done += 1;
                    for t in new {
                        if t.size() <= CAP {
                            w.keep(t, &from).map_err(|e| format!("{}: {}", what, e))?;
                        }
                    }
                    while w.pool.len() > POOL {
                        let k = (s.pick[1] + n) % w.pool.len();
                        w.pool.remove(k);
                    }
                }
                None => {
                    if let Some(e) = track::error() {
                        return Err(format!("{}: {}", what, e));
                    }
                    w.forgive();
                    ctx.label(if fired { "user code panicked" } else { "refused" });
                }
            }
        }
        w.audit(&what)?;
    }
    ctx.nt(done >= 2);
    Ok(())
}

fn history_strategy(bombs: bool) -> BoxedStrategy<History> {
    let n = || 0usize..3000;
    let bomb = if bombs { prop::option::weighted(0.5, prop_oneof![3 => 1i64..8, 2 => 1i64..60]).boxed() } else { Just(None).boxed() };
    let step = (
        prop_oneof![3 => Just(0u8), 3 => Just(1u8), 14 => Just(2u8)],
        any::<u8>(),
        prop::array::uniform3(n()),
        prop::array::uniform4(n()),
        sshape(0, 4, 40),
        prop_oneof![8 => -3isize..=3, 1 => -7isize..=7],
        bomb,
    )
        .prop_map(|(what, op, pick, n, shape, axis, bomb)| Step { what, op, pick, n, shape, axis, bomb });
    (0u8..5, 0u32..100_000, prop::collection::vec(step, 1..=14), n()).prop_map(|(ty, seed, steps, order)| History { ty, seed, steps, order }).boxed()
}

fn run(c: &History, ctx: &mut Ctx) -> R {
    match c.ty % 5 {
        0 => { ctx.label("heap-owning elements"); history::<track::Heap>(c, ctx) }
        1 => { ctx.label("plain elements"); history::<track::Plain>(c, ctx) }
        2 => { ctx.label("over-aligned elements"); history::<track::Aligned>(c, ctx) }
        3 => { ctx.label("long elements"); history::<track::Long>(c, ctx) }
        _ => { ctx.label("zero-sized elements"); history::<track::Nil>(c, ctx) }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call {
    op: usize,
    args: ArgSpec,
}

/// every operation under the memory checkers; the result does not depend on
/// what fresh memory happens to hold
fn catalogue(c: &Call, ctx: &mut Ctx) -> R {
    let name = OPS[c.op % OPS.len()].0;
    let a = c.args.build(true);
    alloc::FILL.store(0xCB, std::sync::atomic::Ordering::SeqCst);
    let x = call(c.op, &a).map(|o| o.seen);
    // floats: a small positive number, a large one
    alloc::FILL.store(0x3F, std::sync::atomic::Ordering::SeqCst);
    let y = call(c.op, &a).map(|o| o.seen);
    alloc::FILL.store(0xCB, std::sync::atomic::Ordering::SeqCst);
    drop(a);
    ctx.nt(x.is_some());
    ctx.label(name);
    ctx.label_if(x.is_none(), "refused");
    ensure!(x == y, "{} with shapes {:?} depends on uninitialised memory: {} or {}", name, c.args.shapes(), describe(&x), describe(&y));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wild {
    op: u8,
    t: TS,
    b: Vec<usize>,
    n: Vec<usize>,
    axis: isize,
}

/// calls a program may make by mistake: any outcome will do, apart from
/// touching memory the tensor does not own
fn wild(c: &Wild, ctx: &mut Ctx) -> R {
    let t = c.t.build::<f32>().t;
    let s = TS { shape: c.t.shape.clone(), v: c.t.v, prov: c.t.prov.clone() }.build::<String>().t;
    let n = |k: usize| c.n[k % c.n.len()];
    let ax = || Axis::axis(c.axis);
    let small = |k: usize| n(k) % 7;
    let b = c.b.as_slice();
    let nb = size(b);
    let other = Tensor::from_vec((0..nb).map(|i| i as f32).collect(), b);
    let sum = |v: &[f32]| v.iter().map(|x| x.to_bits() as u64).fold(0u64, |a, b| a.wrapping_add(b));
    let all = |v: Vec<Tensor<f32>>| v.iter().map(|t| sum(t.as_slice())).fold(0u64, |a, b| a.wrapping_add(b));
    let r = attempt(|| -> u64 {
        match c.op % 40 {
            0 => sum(t.subslice_flat(n(0), n(1), [n(1)]).as_slice()),
            1 => sum(t.subslice(n(0), n(1)).as_slice()),
            2 => sum(t.as_wrap_slice(n(0))),
            3 => sum(t.as_wrap_slice_n(n(0), n(1))),
            4 => t.get(n(0)).map_or(0, |v| v.to_bits() as u64),
            5 => t[n(0)].to_bits() as u64,
            6 => t[(n(0), n(1))].to_bits() as u64,
            7 => t[(n(0), n(1), n(2))].to_bits() as u64,
            8 => t[(n(0), n(1), n(2), n(3))].to_bits() as u64,
            9 => t[(n(0), n(1), n(2), n(3), n(4))].to_bits() as u64,
            10 => s[n(0)].len() as u64 + s.get(n(1)).map_or(0, |v| v.len() as u64),
            11 => s.as_wrap_slice_n(n(0), n(1)).iter().map(|v| v.len() as u64).sum(),
            12 => s.subslice(n(0), n(1)).iter().map(|v| v.len() as u64).sum(),
            13 => sum(t.clone().reshape(b).as_slice()),
            14 => sum(t.clone().expand_dims(ax()).as_slice()),
            15 => sum(t.clone().squeeze_axis(ax()).as_slice()),
            16 => sum((&t + &other).as_slice()),
            17 => sum(t.map3(&other, &t, |a, b, c| a + b + c).as_slice()),
            18 => sum(other.map3(&t, &other, |a, b, c| a + b + c).as_slice()),
            19 => sum(t.reduce_sum_axis(ax()).as_slice()),
            20 => sum(t.reduce_mean_axis(ax()).as_slice()),
            21 => sum(t.fold_row(ax(), [0f32, 1.], |s, r| [s[0] + r.first().copied().unwrap_or(0.), s[1]]).as_slice()),
            22 => sum(t.normalize(ax(), 0f32, |s, v| s + v, |s| s, |s, v| v - s).as_slice()),
            23 => all(vec![array::concatenate_axis(ax(), [&t, &other])]),
            24 => all(vec![array::stack_axis(ax(), [&t, &other])]),
            25 => all(vec![array::hstack([&t, &other]), array::vstack([&t, &other])]),
            26 => all(vec![array::dstack([&t, &other])]),
            27 => all(vec![t.append(&other)]),
            28 => all(vec![Tensor::from_merge(&[t.clone(), other.clone()], b)]),
            29 => all(t.split_axis(ax(), small(0))),
            30 => all(t.split_axis(ax(), vec![small(0), small(1), small(2)])),
            31 => all(t.unstack(ax())),
            32 => all(vec![t.tile(b.to_vec())]),
            33 => all(vec![t.matmul(&other)]),
            34 => all(vec![t.matvec(&other)]),
            35 => all(vec![other.matvec(&t)]),
            36 => all(vec![essay_tensor::signal::rfft_norm(&other, ())]),
            37 => { let (x, y) = essay_tensor::stats::histogram(&other, small(0)); all(vec![x, y]) }
            38 => { let (x, y, z) = essay_tensor::stats::histogram2d(&other, small(0)); all(vec![x, y, z]) }
            _ => all(vec![other.t(), other.tril(), other.triu(), init::one_hot(vec![small(0), small(1)], small(2))]),
        }
    });
    std::hint::black_box(&r);
    ctx.nt(true);
    ctx.label_if(r.is_none(), "refused");
    ctx.label_if(r.is_some(), "accepted");
    // the operands are what they were
    expect("operand of a wild call", &t, &c.t.model::<f32>())?;
    expect("operand of a wild call", &s, &c.t.model::<String>())
}

struct Cellular(#[allow(dead_code)] std::cell::Cell<u32>);
impl Type for Cellular {}
struct Counted(#[allow(dead_code)] std::rc::Rc<u32>);
impl Type for Counted {}

fn main() {
    let number = || prop_oneof![
        6 => 0usize..8, 3 => 0usize..200, 1 => Just(usize::MAX), 1 => (0usize..4).prop_map(|k| usize::MAX - k),
        1 => (0usize..4).prop_map(|k| usize::MAX / 4 + 1 - k), 1 => Just(1usize << 32), 1 => (0usize..6).prop_map(|k| usize::MAX / 8 + k),
        1 => Just(1usize << 62), 1 => Just(1usize << 63)];
    let wild_case = (any::<u8>(), ts(sshape(0, 5, 200), &[IOTA]), prop_oneof![6 => sshape(0, 5, 100), 1 => prop::collection::vec(0usize..4, 0..=4)],
        prop::collection::vec(number(), 5..=5), prop_oneof![4 => -4isize..=4, 1 => -9isize..=9, 1 => Just(isize::MIN), 1 => Just(isize::MAX)], any::<bool>())
        .prop_map(|(op, t, b, n, axis, same)| { let b = if same { vharness::ops::related(&t.shape, op % 9, n[0] % 50) } else { b }; Wild { op, t, b, n, axis } });
    let calls = |s: BoxedStrategy<Vec<usize>>| (0..OPS.len(), arg_spec(s, prov)).prop_map(|(op, args)| Call { op, args });
    vharness::fw::main(Prop {
        id: "C01",
        rule: "history: a case is a sequence of up to 14 constructions, operations and drops over a pool of tensors of instrumented elements, non-trivial when at least two are accepted; catalogue: one operation of the public API on views under the memory checkers, non-trivial when accepted; wild: a call with arbitrary numbers",
        subs: vec![
            sub("history", 25_000, history_strategy(false), run),
            sub("panics", 25_000, history_strategy(true), run),
            sub("catalogue", 12_000, calls(sshape(0, 5, 300)), catalogue),
            sub("catalogue_large", 2_000, calls(shape(1, 4, 10_000)), catalogue),
            sub("wild", 40_000, wild_case, wild),
            sub("crossing", 1, Just(0u8), |_, ctx| {
                ctx.nt(true);
                ensure!(!is_send!(Tensor<Cellular>) && !is_sync!(Tensor<Cellular>), "a tensor of cells may be shared between threads");
                ensure!(!is_send!(Tensor<Counted>) && !is_sync!(Tensor<Counted>), "a tensor of Rc may be shared between threads");
                Ok(())
            }),
        ],
    });
}
