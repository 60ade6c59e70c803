//! Generators: shapes, values, provenance of tensors
use crate::elem::*;
use crate::model::*;
use essay_tensor::tensor::Tensor;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const EDGES: &[usize] = &[
    7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047,
    2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32768, 65535, 65536, 65537,
];

pub fn dim() -> BoxedStrategy<usize> {
    prop_oneof![
        6 => Just(1usize),
        10 => 2usize..=5,
        4 => 1usize..=20,
        2 => 1usize..=300,
        1 => 1usize..=1100,
        1 => (0usize..EDGES.len()).prop_map(|i| EDGES[i]),
    ]
    .boxed()
}

/// small dimension only
pub fn sdim() -> BoxedStrategy<usize> {
    prop_oneof![3 => Just(1usize), 6 => 2usize..=4, 2 => 1usize..=9].boxed()
}

fn clamp(mut dims: Vec<usize>, cap: usize, from_end: bool) -> Vec<usize> {
    let mut room = cap.max(1);
    let n = dims.len();
    for k in 0..n {
        let k = if from_end { n - 1 - k } else { k };
        let d = dims[k].min(room).max(1);
        dims[k] = d;
        room /= d;
    }
    dims
}

/// dimensions of rank in [min_rank, max_rank] and at most about `cap` elements
pub fn shape(min_rank: usize, max_rank: usize, cap: usize) -> BoxedStrategy<Vec<usize>> {
    if cap >= 5_000 {
        return prop_oneof![1 => shape_any(min_rank, max_rank, cap), 1 => bshape(min_rank, max_rank, cap)].boxed();
    }
    shape_any(min_rank, max_rank, cap)
}

/// shapes whose number of elements is near a chosen target: up to `cap`, evenly over its magnitudes, and around powers of two
pub fn bshape(min_rank: usize, max_rank: usize, cap: usize) -> BoxedStrategy<Vec<usize>> {
    let target = prop_oneof![
        2 => (0.0f64..1.0).prop_map(move |u| (1_000f64 * (cap as f64 / 1_000.).powf(u)) as usize),
        1 => (0.5f64..1.0).prop_map(move |u| (cap as f64 * u) as usize),
        1 => (0usize..EDGES.len()).prop_map(move |i| EDGES[i].min(cap)),
    ];
    (prop::collection::vec(prop_oneof![2 => Just(1usize), 4 => 2usize..=6, 2 => 1usize..=70, 1 => dim()], min_rank.max(1)..=max_rank.max(1)), target, any::<usize>())
        .prop_map(|(mut d, n, at)| {
            let at = at % d.len();
            d[at] = 1;
            let mut d = clamp(d, n, false);
            d[at] = 1;
            let rest: usize = d.iter().product();
            d[at] = (n / rest).max(1);
            d
        })
        .boxed()
}

fn shape_any(min_rank: usize, max_rank: usize, cap: usize) -> BoxedStrategy<Vec<usize>> {
    (prop::collection::vec(dim(), min_rank..=max_rank), prop_oneof![3 => Just(0u8), 1 => Just(1u8)], any::<bool>())
        .prop_map(move |(d, big, fe)| clamp(d, if big == 1 { cap } else { (cap / 8).max(64) }, fe))
        .boxed()
}

/// dimensions that are small on every axis
pub fn sshape(min_rank: usize, max_rank: usize, cap: usize) -> BoxedStrategy<Vec<usize>> {
    (prop::collection::vec(sdim(), min_rank..=max_rank), any::<bool>()).prop_map(move |(d, fe)| clamp(d, cap, fe)).boxed()
}

/// mix of both
pub fn mshape(min_rank: usize, max_rank: usize, cap: usize) -> BoxedStrategy<Vec<usize>> {
    let small = if cap >= 5_000 { 1 } else { 3 };
    prop_oneof![small => sshape(min_rank, max_rank, cap), 1 => shape(min_rank, max_rank, cap)].boxed()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct V {
    pub kind: u8,
    pub seed: u32,
}

pub fn vals(kinds: &'static [u8]) -> BoxedStrategy<V> {
    ((0..kinds.len()), 0u32..100_000).prop_map(move |(k, seed)| V { kind: kinds[k], seed }).boxed()
}

/// How a tensor comes about
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Prov {
    /// from a vector
    Fresh,
    /// produced by an operation of the library
    Mapped,
    /// flat data reshaped
    Reshaped,
    /// flat window of a longer vector
    Flat { pre: usize, post: usize, keep: bool },
    /// rows of a tensor with more rows
    Sub { pre: usize, post: usize, keep: bool },
    /// window of a window
    Nested { pre: usize, post: usize, pre2: usize, post2: usize, keep: bool },
    /// a piece of a split
    Split { pre: usize, post: usize },
    /// a clone whose original is dropped
    Cloned,
}

impl Prov {
    pub fn is_view(&self) -> bool {
        match self {
            Prov::Flat { pre, .. } | Prov::Sub { pre, .. } | Prov::Split { pre, .. } => *pre > 0,
            Prov::Nested { pre, pre2, .. } => pre + pre2 > 0,
            _ => false,
        }
    }
}

fn pad() -> BoxedStrategy<usize> {
    prop_oneof![2 => Just(0usize), 4 => 1usize..=3, 2 => 1usize..=40].boxed()
}

pub fn prov() -> BoxedStrategy<Prov> {
    prop_oneof![
        4 => Just(Prov::Fresh),
        1 => Just(Prov::Mapped),
        1 => Just(Prov::Reshaped),
        1 => Just(Prov::Cloned),
        3 => (pad(), pad(), any::<bool>()).prop_map(|(pre, post, keep)| Prov::Flat { pre, post, keep }),
        3 => (pad(), pad(), any::<bool>()).prop_map(|(pre, post, keep)| Prov::Sub { pre, post, keep }),
        2 => (pad(), pad(), pad(), pad(), any::<bool>()).prop_map(|(pre, post, pre2, post2, keep)| Prov::Nested { pre, post, pre2, post2, keep }),
        1 => (pad(), pad()).prop_map(|(pre, post)| Prov::Split { pre, post }),
    ]
    .boxed()
}

/// always a window with something before it
pub fn view_prov() -> BoxedStrategy<Prov> {
    let pad = || prop_oneof![4 => 1usize..=3, 2 => 1usize..=40];
    prop_oneof![
        3 => (pad(), pad(), any::<bool>()).prop_map(|(pre, post, keep)| Prov::Flat { pre, post, keep }),
        3 => (pad(), pad(), any::<bool>()).prop_map(|(pre, post, keep)| Prov::Sub { pre, post, keep }),
        2 => (pad(), pad(), pad(), pad(), any::<bool>()).prop_map(|(pre, post, pre2, post2, keep)| Prov::Nested { pre, post, pre2, post2, keep }),
        1 => (pad(), pad()).prop_map(|(pre, post)| Prov::Split { pre, post }),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TS {
    pub shape: Vec<usize>,
    pub v: V,
    pub prov: Prov,
}

pub fn ts(shape: BoxedStrategy<Vec<usize>>, kinds: &'static [u8]) -> BoxedStrategy<TS> {
    (shape, vals(kinds), prov()).prop_map(|(shape, v, prov)| TS { shape, v, prov }).boxed()
}

pub fn values<T: Elem>(v: V, n: usize) -> Vec<T> {
    (0..n).map(|i| T::make(v.kind, v.seed, i)).collect()
}

/// build a tensor of the given contents with the given provenance
pub fn place<T: Elem>(m: &M<T>, prov: &Prov, salt: u32) -> (Tensor<T>, Vec<Tensor<T>>) {
    let other = |n: usize, k: u32| -> Vec<T> { (0..n).map(|i| T::make(IOTA, salt.wrapping_add(500 + k), i + 40_000 + 7 * k as usize)).collect() };
    let n = m.data.len();
    let shape: &[usize] = &m.shape;
    let plain = || Tensor::from_vec(m.data.clone(), shape);
    if n == 0 || (m.shape.is_empty() && matches!(prov, Prov::Sub { .. } | Prov::Split { .. })) {
        return (plain(), vec![]);
    }
    let surround = |pre: usize, post: usize, k: u32| {
        let mut d = other(pre, k);
        d.extend(m.data.iter().cloned());
        d.extend(other(post, k + 1));
        d
    };
    match prov {
        Prov::Fresh => (plain(), vec![]),
        Prov::Mapped => (plain().map(|v| v.clone()), vec![]),
        Prov::Reshaped => (Tensor::from_vec(m.data.clone(), [n]).reshape(shape), vec![]),
        Prov::Cloned => {
            let t = plain();
            let c = t.clone();
            drop(t);
            (c, vec![])
        }
        Prov::Flat { pre, post, keep } => {
            let p = Tensor::from_vec(surround(*pre, *post, 1), [pre + n + post]);
            let t = p.subslice_flat(*pre, n, shape);
            (t, if *keep { vec![p] } else { vec![] })
        }
        Prov::Sub { pre, post, keep } => {
            let inner = size(&shape[1..]);
            let mut s = shape.to_vec();
            s[0] += pre + post;
            let p = Tensor::from_vec(surround(pre * inner, post * inner, 3), s.as_slice());
            let t = p.subslice(*pre, shape[0]);
            (t, if *keep { vec![p] } else { vec![] })
        }
        Prov::Split { pre, post } => {
            let inner = size(&shape[1..]);
            let mut s = shape.to_vec();
            s[0] += pre + post;
            let p = Tensor::from_vec(surround(pre * inner, post * inner, 5), s.as_slice());
            let mut parts = p.split_axis(0, vec![*pre, pre + shape[0]]);
            let t = parts.remove(if *pre > 0 { 1 } else { 0 });
            (t, vec![])
        }
        Prov::Nested { pre, post, pre2, post2, keep } => {
            let inner = if shape.is_empty() { 1 } else { size(&shape[1..]) };
            let mut d = other(*pre, 7);
            d.extend(surround(pre2 * inner, post2 * inner, 8));
            d.extend(other(*post, 10));
            let len = d.len();
            let p = Tensor::from_vec(d, [len]);
            let mid_len = len - pre - post;
            if shape.is_empty() {
                let q = p.subslice_flat(*pre, mid_len, [mid_len]);
                let t = q.subslice_flat(*pre2, 1, shape);
                (t, if *keep { vec![p, q] } else { vec![] })
            } else {
                let mut s = shape.to_vec();
                s[0] += pre2 + post2;
                let q = p.subslice_flat(*pre, mid_len, s.as_slice());
                let t = q.subslice(*pre2, shape[0]);
                (t, if *keep { vec![q] } else { vec![] })
            }
        }
    }
}

pub fn place_or_fresh<T: Elem>(m: &M<T>, prov: &Prov, salt: u32) -> (Tensor<T>, Vec<Tensor<T>>) {
    if let Some((t, keep)) = crate::fw::attempt(|| place(m, prov, salt)) {
        if expect("", &t, m).is_ok() {
            return (t, keep);
        }
    }
    (Tensor::from_vec(m.data.clone(), m.shape.as_slice()), vec![])
}

/// Tensors of these contents that are windows of one storage, for one seed in four.
/// None otherwise, or where the library fails to set them up.
pub fn siblings<T: Elem>(ms: &[&M<T>], seed: u32) -> Option<Vec<Tensor<T>>> {
    if seed % 4 != 3 || ms.iter().any(|m| m.data.is_empty()) {
        return None;
    }
    let k = ms.len();
    let mut d: Vec<T> = vec![];
    let mut at = vec![0; k];
    for j in 0..k {
        // in this order or the other
        let j = if seed / 4 % 2 == 0 { j } else { k - 1 - j };
        let gap = if seed / 8 % 2 == 0 { 0 } else { (seed as usize / 16 + j) % 7 };
        d.extend((0..gap).map(|i| T::make(IOTA, seed ^ 0xabc, i + 90_000)));
        at[j] = d.len();
        d.extend(ms[j].data.iter().cloned());
    }
    let t = crate::fw::attempt(|| {
        let n = d.len();
        let s = Tensor::from_vec(d, [n]);
        (0..k).map(|j| s.subslice_flat(at[j], ms[j].data.len(), ms[j].shape.as_slice())).collect::<Vec<_>>()
    })?;
    t.iter().zip(ms).all(|(t, m)| expect("", t, m).is_ok()).then_some(t)
}

/// two tensors of one element type, now and then windows of one storage
pub fn pair_of<T: Elem>(a: &TS, b: &TS) -> (Built<T>, Built<T>) {
    let (x, y) = (a.model::<T>(), b.model::<T>());
    match siblings(&[&x, &y], a.v.seed.wrapping_mul(5).wrapping_add(b.v.seed)) {
        Some(mut t) => {
            let u = t.pop().unwrap();
            (Built { t: t.pop().unwrap(), m: x, keep: vec![] }, Built { t: u, m: y, keep: vec![] })
        }
        None => (a.build(), b.build()),
    }
}

pub struct Built<T: essay_tensor::tensor::Type> {
    pub t: Tensor<T>,
    pub m: M<T>,
    pub keep: Vec<Tensor<T>>,
}

impl TS {
    pub fn size(&self) -> usize {
        size(&self.shape)
    }
    pub fn model<T: Elem>(&self) -> M<T> {
        M::new(self.shape.clone(), values(self.v, self.size()))
    }
    /// The tensor of this specification. Should the library fail to set it up
    /// with the wanted provenance (a matter for the properties about views),
    /// a freshly built one takes its place.
    pub fn build<T: Elem>(&self) -> Built<T> {
        let m = self.model::<T>();
        let (t, keep) = place_or_fresh(&m, &self.prov, self.v.seed);
        Built { t, m, keep }
    }
    /// as `build`, with no way out
    pub fn build_strict<T: Elem>(&self) -> Built<T> {
        let m = self.model::<T>();
        let (t, keep) = place(&m, &self.prov, self.v.seed);
        Built { t, m, keep }
    }
}

/// an axis of a tensor of rank n, as the caller may write it (also negative)
pub fn axis_of(raw: usize, neg: bool, rank: usize) -> (isize, usize) {
    let a = raw % rank;
    (if neg { a as isize - rank as isize } else { a as isize }, a)
}

/// Run a body with `T` bound to one of several element types
#[macro_export]
macro_rules! with_type {
    ($n:expr, $T:ident => $body:expr) => {
        match $n % 10 {
            0 => { type $T = i32; $body }
            1 => { type $T = f32; $body }
            2 => { type $T = String; $body }
            3 => { type $T = u8; $body }
            4 => { type $T = (i64, f64); $body }
            5 => { type $T = $crate::elem::Pt; $body }
            7 => { type $T = f64; $body }
            8 => { type $T = u16; $body }
            9 => { type $T = i128; $body }
            _ => { type $T = $crate::elem::Wide; $body }
        }
    };
}

/// Run a body with the constant `N` bound to a small number
#[macro_export]
macro_rules! with_n {
    ($n:expr, $N:ident => $body:expr) => {
        match $n {
            1 => { const $N: usize = 1; $body }
            2 => { const $N: usize = 2; $body }
            3 => { const $N: usize = 3; $body }
            4 => { const $N: usize = 4; $body }
            5 => { const $N: usize = 5; $body }
            8 => { const $N: usize = 8; $body }
            _ => { const $N: usize = 17; $body }
        }
    };
}
pub const NS: [usize; 7] = [1, 2, 3, 4, 5, 8, 17];
pub fn small_n() -> BoxedStrategy<usize> {
    (0usize..7).prop_map(|i| NS[i]).boxed()
}
