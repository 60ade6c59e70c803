//! A catalogue of the public operations, each as a function from one set of
//! operands to everything that can be seen of its result. The checks about
//! views, immutability and memory run every operation through it.
use crate::elem::*;
use crate::gen::*;
use crate::model::*;
use essay_tensor::tensor::{Axis, Tensor, Type};
use essay_tensor::{array, init, linalg, signal, stats};
use num_complex::Complex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

pub type C32 = Complex<f32>;

/// The operands: three tensors of each kind and a few numbers
pub struct Args {
    pub f: Vec<Tensor<f32>>,
    pub d: Vec<Tensor<f64>>,
    pub i: Vec<Tensor<i32>>,
    pub u: Vec<Tensor<u32>>,
    pub c: Vec<Tensor<C32>>,
    pub s: Vec<Tensor<String>>,
    pub k: [usize; 4],
    pub x: [f32; 3],
    pub axis: isize,
}

/// What can be seen of a result
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Seen {
    pub parts: Vec<(Vec<usize>, Vec<u64>)>,
    pub text: String,
}

pub trait Bits: Type {
    fn bits(&self, out: &mut Vec<u64>);
}
macro_rules! bits {
    ($($t:ty)*) => { $( impl Bits for $t { fn bits(&self, out: &mut Vec<u64>) { out.push(*self as u64) } } )* };
}
bits!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize bool);
impl Bits for f32 {
    fn bits(&self, out: &mut Vec<u64>) {
        out.push(if self.is_nan() { u64::MAX } else { self.to_bits() as u64 })
    }
}
impl Bits for f64 {
    fn bits(&self, out: &mut Vec<u64>) {
        out.push(if self.is_nan() { u64::MAX } else { self.to_bits() })
    }
}
impl Bits for C32 {
    fn bits(&self, out: &mut Vec<u64>) {
        self.re.bits(out);
        self.im.bits(out);
    }
}
impl Bits for String {
    fn bits(&self, out: &mut Vec<u64>) {
        out.push(self.len() as u64);
        out.extend(self.bytes().map(|b| b as u64));
    }
}
impl<A: Bits, B: Bits> Bits for (A, B) {
    fn bits(&self, out: &mut Vec<u64>) {
        self.0.bits(out);
        self.1.bits(out);
    }
}

#[derive(Default)]
pub struct Out {
    pub seen: Seen,
    /// results that can serve as operands later
    pub f: Vec<Tensor<f32>>,
    pub i: Vec<Tensor<i32>>,
    pub s: Vec<Tensor<String>>,
}

pub fn see<T: Bits>(t: &Tensor<T>) -> (Vec<usize>, Vec<u64>) {
    let mut bits = vec![];
    for v in t.as_slice() {
        v.bits(&mut bits);
    }
    bits.push(t.size() as u64);
    (t.shape().as_vec(), bits)
}

/// anything an operation can return
pub trait Into2 {
    fn put(self, o: &mut Out);
}
impl Into2 for Tensor<f32> {
    fn put(self, o: &mut Out) {
        o.seen.parts.push(see(&self));
        o.f.push(self);
    }
}
impl Into2 for Tensor<i32> {
    fn put(self, o: &mut Out) {
        o.seen.parts.push(see(&self));
        o.i.push(self);
    }
}
impl Into2 for Tensor<String> {
    fn put(self, o: &mut Out) {
        o.seen.parts.push(see(&self));
        o.s.push(self);
    }
}
macro_rules! plain {
    ($($t:ty),*) => { $( impl Into2 for Tensor<$t> { fn put(self, o: &mut Out) { o.seen.parts.push(see(&self)); } } )* };
}
plain!(f64, u32, u64, bool, C32, usize, (f32, f32), u8, (String, u32), (i32, i32));
impl<T: Into2> Into2 for Vec<T> {
    fn put(self, o: &mut Out) {
        o.seen.parts.push((vec![self.len()], vec![]));
        for t in self {
            t.put(o);
        }
    }
}
impl<T: Into2, const N: usize> Into2 for [T; N] {
    fn put(self, o: &mut Out) {
        for t in self {
            t.put(o);
        }
    }
}
impl<A: Into2, B: Into2> Into2 for (A, B) {
    fn put(self, o: &mut Out) {
        self.0.put(o);
        self.1.put(o);
    }
}
impl<A: Into2, B: Into2, C: Into2> Into2 for (A, B, C) {
    fn put(self, o: &mut Out) {
        self.0.put(o);
        self.1.put(o);
        self.2.put(o);
    }
}
impl Into2 for String {
    fn put(self, o: &mut Out) {
        o.seen.text.push_str(&self);
    }
}
impl<T: Debug> Into2 for Option<T> {
    fn put(self, o: &mut Out) {
        o.seen.text.push_str(&format!("{:?};", self));
    }
}
impl Into2 for bool {
    fn put(self, o: &mut Out) {
        o.seen.text.push_str(if self { "true;" } else { "false;" });
    }
}

fn fit(want: &[usize], n: usize) -> Vec<usize> {
    // a shape of n elements that resembles `want`
    if size(want) == n { want.to_vec() } else { vec![n] }
}

pub type Op = (&'static str, fn(&Args) -> Out);

macro_rules! catalogue {
    ($a:ident; $($name:literal => $e:expr;)*) => {
        &[ $( ($name, { fn f($a: &Args) -> Out { let mut o = Out::default(); Into2::put($e, &mut o); o } f as fn(&Args) -> Out }) ),* ]
    };
}

/// the catalogue leaves out results of enormous size
fn small(a: &Args, n: usize) {
    assert!(a.f[0].size() <= n, "left out");
}

fn ax(a: &Args) -> Axis {
    Axis::axis(a.axis)
}

#[cfg(feature = "hooks")]
fn tr(k: usize) -> linalg::Transpose {
    match k % 4 {
        0 => linalg::Transpose::None,
        1 => linalg::Transpose::TransposeA,
        2 => linalg::Transpose::TransposeB,
        _ => linalg::Transpose::TransposeAB,
    }
}
#[cfg(feature = "hooks")]
fn matmul_t(a: &Args) -> Tensor {
    a.f[0].matmul_t(&a.f[1], tr(a.k[0]))
}
#[cfg(not(feature = "hooks"))]
fn matmul_t(a: &Args) -> Tensor {
    a.f[0].matmul(&a.f[1])
}
#[cfg(feature = "hooks")]
fn matvec_t(a: &Args) -> Tensor {
    a.f[0].matvec_t(&a.f[1], tr(a.k[0]))
}
#[cfg(not(feature = "hooks"))]
fn matvec_t(a: &Args) -> Tensor {
    a.f[0].matvec(&a.f[1])
}
#[cfg(feature = "hooks")]
fn rfft_len(a: &Args) -> Tensor {
    use essay_tensor::signal::FftOpt;
    signal::rfft_norm(&a.f[0], ().fft_length(1 + a.k[0] % 40))
}
#[cfg(not(feature = "hooks"))]
fn rfft_len(a: &Args) -> Tensor {
    signal::rfft_norm(&a.f[0], ())
}

fn cuts(a: &Args, dim: usize) -> Vec<usize> {
    let mut c = vec![a.k[0] % (dim + 1), a.k[1] % (dim + 1), a.k[2] % (dim + 1)];
    c.sort();
    c
}
fn axis_dim<T: Type>(a: &Args, t: &Tensor<T>) -> usize {
    let r = t.rank();
    if r == 0 { 1 } else { t.dim((if a.axis < 0 { a.axis + 8 * r as isize } else { a.axis }) as usize % r) }
}
/// columns of pairs, for the two-dimensional histogram
fn pairs(t: &Tensor<f32>) -> Tensor<f32> {
    let n = t.size() / 2;
    t.subslice_flat(t.size() - 2 * n, 2 * n, [n, 2])
}
fn window<T: Type>(a: &Args, t: &Tensor<T>) -> Tensor<T> {
    let n = t.size();
    let off = a.k[0] % (n + 1);
    let len = if n == off { 0 } else { 1 + a.k[1] % (n - off) };
    t.subslice_flat(off, len, [len])
}
fn rows<T: Type>(a: &Args, t: &Tensor<T>) -> Tensor<T> {
    let n = t.dim(0);
    let off = a.k[0] % n;
    t.subslice(off, 1 + a.k[1] % (n - off))
}

pub static OPS: &[Op] = catalogue! { a;
    // reading
    "get" => vec![a.f[0].get(a.k[0] % (a.f[0].size() + 2)).copied(), a.f[0].get(0).copied()];
    "index" => vec![Tensor::from(a.i[0][a.k[0] % (a.i[0].size() + 1)])];
    "index2" => Tensor::from(a.f[0][(a.k[0] % 3, a.k[1] % 3)]);
    "index3" => Tensor::from(a.f[0][(a.k[0] % 3, a.k[1] % 3, a.k[2] % 3)]);
    "index4" => Tensor::from(a.f[0][(a.k[0] % 2, a.k[1] % 2, a.k[2] % 2, a.k[3] % 2)]);
    "iter" => a.s[0].iter().cloned().collect::<Vec<String>>().join(",");
    "into_iter" => (&a.i[0]).into_iter().map(|v| v.to_string()).collect::<Vec<String>>().join(",");
    "iter_row" => a.i[0].iter_row().map(|r| format!("{:?}", r)).collect::<Vec<String>>().join(";");
    "deref" => format!("{:?} {}", a.u[0].first(), a.u[0].len());
    "as_wrap_slice" => format!("{:?}", a.i[0].as_wrap_slice(a.k[0] % 50));
    "as_wrap_slice_n" => format!("{:?}", a.i[0].as_wrap_slice_n(a.k[0] % 50, a.k[1] % 4));
    "debug" => format!("{:?}", a.i[0]);
    "debug string" => format!("{:?}", a.s[0]);
    "eq" => (a.f[0] == a.f[1]) & (a.s[0] == a.s[1]);
    "cmp" => vec![a.f[0].partial_cmp(&a.f[1]), a.i[0].partial_cmp(&a.i[1]), a.s[0].partial_cmp(&a.s[1])];
    // windows and shapes
    "subslice" => (rows(a, &a.f[0]), rows(a, &a.s[0]));
    "subslice_flat" => (window(a, &a.f[0]), window(a, &a.i[0]));
    "window of a window" => window(a, &window(a, &a.f[0]));
    "clone" => (a.f[0].clone(), a.s[0].clone());
    "from ref" => Tensor::from(&a.f[0]);
    "flatten" => (a.f[0].clone().flatten(), a.i[0].clone().flatten());
    "reshape" => a.f[0].clone().reshape(fit(&a.f[1].shape().as_vec(), a.f[0].size()).as_slice());
    "expand_dims" => a.f[0].clone().expand_dims(ax(a));
    "squeeze" => a.f[0].clone().squeeze();
    "squeeze_axis" => a.i[0].clone().squeeze_axis(ax(a));
    // element-wise
    "map" => a.f[0].map(|v| v.to_bits() as i32);
    "map string" => a.s[0].map(|v| format!("{}!", v));
    "map2" => a.s[0].map2(&a.u[1], |x, y| (x.clone(), *y));
    "map3" => a.f[0].map3(&a.i[1], &a.u[2], |x, y, z| format!("{} {} {}", x, y, z));
    "map_row" => a.f[0].map_row(|r| [r[0], r[r.len() - 1], r.len() as f32]);
    "map_row 1" => a.s[0].map_row(|r| [r.concat()]);
    "map_expand" => a.i[0].map_expand(|v| [*v, v ^ 1]);
    "+" => &a.f[0] + &a.f[1];
    "-" => a.f[0].clone() - &a.f[1];
    "*" => &a.f[0] * a.f[1].clone();
    "/" => a.d[0].clone() / a.d[1].clone();
    "%" => &a.f[0] % &a.f[1];
    "+ scalar" => (&a.f[0] + a.x[0], a.x[1] + &a.f[0], a.x[2] - a.f[0].clone());
    "& | ^" => (&a.i[0] & &a.i[1], &a.i[0] | &a.i[1], &a.i[0] ^ &a.i[1]);
    "<< >>" => (&a.u[0] << (a.k[0] % 32) as u32, &a.u[0] >> (a.k[1] % 32) as u32);
    "! -" => (!&a.i[0], -&a.f[0], -a.f[0].clone());
    "abs" => (a.f[0].abs(), a.f[0].abs_sub(&a.f[1]), a.f[0].is_negative());
    "sign" => (a.f[0].is_positive(), a.f[0].neg(), a.f[0].square());
    "min max" => (a.i[0].min(&a.i[1]), a.i[0].max(&a.i[1]), a.s[0].max(&a.s[1]));
    "floor" => (a.f[0].floor(), a.f[0].ceil(), a.f[0].fract());
    "sqrt" => (a.d[0].sqrt(), a.f[0].recip(), a.f[0].signum());
    "exp ln" => (a.f[0].exp(), a.f[0].ln(), a.d[0].log10());
    "sin" => (a.f[0].sin(), a.f[0].cos(), a.f[0].sin_cos());
    "powf" => (a.f[0].powf(&a.f[1]), a.f[0].atan2(&a.f[1]), a.f[0].hypot(&a.f[1]));
    "powi" => a.f[0].powi(&a.i[1].map(|v| v % 5));
    "mul_add" => num_traits::MulAdd::mul_add(a.f[0].clone(), &a.f[1], &a.f[2]);
    "bits" => (a.u[0].count_ones(), a.u[0].leading_zeros(), a.u[0].swap_bytes());
    "rotate" => (a.u[0].rotate_left(&a.u[1]), a.i[0].rotate_right(&a.u[1]));
    "complex +" => (&a.c[0] + &a.c[1], &a.c[0] * &a.c[1], a.c[0].conj());
    "complex parts" => (a.c[0].re(), a.c[0].im(), a.c[0].norm_sqr());
    "complex polar" => (a.c[0].to_polar(), a.c[0].scale(&a.f[1]), a.c[0].powc(&a.c[1]));
    "from_polar" => Tensor::<C32>::from_polar(&a.f[0].map2(&a.f[1], |x, y| (*x, *y)));
    // folds
    "fold" => (a.f[0].fold(0f32, |s, v| s * 0.5 + v), a.s[0].fold(String::new(), |s, v| s + v));
    "fold_axis" => (a.f[0].fold_axis(ax(a), 0f32, |s, v| s * 0.5 + v), a.s[0].fold_axis(ax(a), String::new(), |s, v| s + v));
    "fold_axis none" => a.f[0].fold_axis(None, 1f32, |s, v| s * 0.5 + v);
    "fold_row" => a.f[0].fold_row(ax(a), [0f32, 0.], |s, r| [s[0] * 0.5 + r[0], s[1] * 0.25 + r[r.len() - 1]]);
    "reduce" => (a.f[0].reduce(|x, y| x * 0.5 + y), a.s[0].reduce(|x, y| x + &y));
    "reduce_axis" => (a.f[0].reduce_axis(ax(a), |x, y| x * 0.5 + y), a.s[0].reduce_axis(ax(a), |x, y| x + &y));
    "reduce_sum" => (a.f[0].reduce_sum(), a.f[0].reduce_sum_axis(ax(a)), a.f[0].reduce_product());
    "reduce_product" => (a.d[0].reduce_product_axis(ax(a)), a.f[0].reduce_min(), a.f[0].reduce_max());
    "reduce_min_axis" => (a.f[0].reduce_min_axis(ax(a)), a.f[0].reduce_max_axis(ax(a)));
    "reduce_mean" => (a.f[0].reduce_mean(), a.f[0].reduce_std(), a.f[0].reduce_variance());
    "reduce_mean_axis" => (a.f[0].reduce_mean_axis(ax(a)), a.f[0].reduce_std_axis(ax(a)), a.f[0].reduce_variance_axis(ax(a)));
    "reduce_hypot" => (a.f[0].reduce_hypot(), a.d[0].reduce_hypot());
    "normalize" => a.f[0].normalize(ax(a), 0f32, |s, v| s * 0.5 + v, |s| s + 1., |s, v| v * s);
    "normalize none" => a.s[0].normalize(None, 0usize, |s, v| s + v.len(), |s| s, |s, v| format!("{}{}", s, v));
    "normalize_unit" => a.f[0].normalize_unit();
    // joining and cutting
    "concatenate" => (array::concatenate([&a.f[0], &a.f[1]]), array::concatenate(vec![a.s[0].clone(), a.s[1].clone(), a.s[0].clone()]));
    "concatenate_axis" => array::concatenate_axis(ax(a), [&a.f[0], &a.f[1]]);
    "concatenate self" => (a.f[0].concatenate_axis(ax(a), [&a.f[0]]), a.s[0].concatenate_axis(ax(a), vec![&a.s[0]]));
    "stack" => (array::stack([&a.f[0], &a.f[1]]), array::stack_axis(ax(a), vec![&a.s[0], &a.s[0]]));
    "stack method" => a.i[0].stack([&a.i[0], &a.i[0]], ax(a));
    "hstack" => array::hstack([&a.f[0], &a.f[1]]);
    "vstack" => (array::vstack([&a.f[0], &a.f[1]]), a.s[0].vstack([&a.s[0]]));
    "dstack" => (array::dstack([&a.f[0], &a.f[1]]), a.s[0].dstack([&a.s[0]]));
    "append" => (a.f[0].append(&a.f[0]), a.f[0].append(&a.f[1]));
    "append mixed" => a.s[0].append(&a.s[1]);
    "from_merge" => Tensor::from_merge(&[a.f[0].clone(), a.f[1].clone()], [a.f[0].size() + a.f[1].size()]);
    "from list" => Tensor::from(&vec![a.f[0].clone(), a.f[1].clone()]);
    "from array" => Tensor::from([a.i[0].clone(), a.i[0].clone()]);
    "split" => (a.f[0].split(1 + a.k[0] % 4), a.s[0].split(1 + a.k[0] % 4));
    "split_axis" => a.f[0].split_axis(ax(a), 1 + a.k[0] % 4);
    "split cuts" => (a.f[0].split_axis(ax(a), cuts(a, axis_dim(a, &a.f[0]))), a.s[0].split_axis(ax(a), cuts(a, axis_dim(a, &a.s[0]))));
    "vsplit" => (a.i[0].vsplit(1 + a.k[0] % 3), a.i[0].vsplit(cuts(a, axis_dim(a, &a.i[0]))));
    "hsplit" => a.f[0].hsplit(1 + a.k[0] % 3);
    "dsplit" => a.f[0].dsplit(1 + a.k[0] % 3);
    "unstack" => (a.f[0].unstack(ax(a)), a.s[0].unstack(ax(a)));
    "transpose" => (a.f[0].transpose(), a.s[0].t(), array::transpose(&a.i[0]));
    "tile" => a.f[0].tile([1 + a.k[0] % 3, 1 + a.k[1] % 3]);
    "tile 3" => (a.s[0].tile([1 + a.k[0] % 2, 1 + a.k[1] % 3, 1 + a.k[2] % 2]), array::tile(&a.i[0], [1 + a.k[3] % 4]));
    // structured
    "diagflat" => { small(a, 200); (a.f[0].diagflat(), a.i[0].diagflat()) };
    "tril triu" => (a.f[0].tril(), a.f[0].triu(), a.i[0].tril());
    "meshgrid" => { small(a, 200); (a.f[0].meshgrid(&a.f[1]), a.s[0].meshgrid_ij(&a.s[1])) };
    "meshgrid 3" => { small(a, 20); init::meshgrid([&a.i[0], &a.i[1], &a.i[2]]) };
    "linspace" => (a.f[0].linspace(&a.f[1], 1 + a.k[0] % 9), init::linspace(a.x[0], a.x[1], a.k[1] % 9));
    "logspace" => (a.f[0].logspace(&a.f[0].abs().map(|v| v * 2.), 1 + a.k[0] % 5), init::logspace_opt(a.x[0].abs(), a.x[0].abs() + 1., 1 + a.k[1] % 5, 2.));
    "geomspace" => a.f[0].geomspace(&(&a.f[0] + 1f32), 1 + a.k[0] % 5);
    "one_hot" => init::one_hot(&a.u[0].map(|v| (*v % 7) as usize), 7);
    "zeros eye" => (Tensor::<f32>::zeros(a.f[0].shape()), Tensor::<i32>::eye(a.k[0] % 6), Tensor::<f32>::tri(a.k[1] % 6));
    "fill" => (Tensor::fill(a.f[0].shape(), a.x[0]), Tensor::<f32>::ones(a.f[1].shape()));
    "init" => { let mut n = 0; Tensor::<i32>::init(a.f[0].shape(), || { n += 1; n }) };
    "init_rindexed" => Tensor::<String>::init_rindexed(a.f[0].shape(), |i| format!("{:?}", i));
    "random" => (init::random_normal(a.f[0].shape(), init::Normal::seed(a.k[0] as u64)), init::random_uniform([1 + a.k[1] % 5], init::Uniform::seed(a.k[0] as u64)));
    // products and signals
    "matmul" => (a.f[0].matmul(&a.f[1]), linalg::matmul(&a.f[0], &a.f[1]));
    "matmul_t" => matmul_t(a);
    "matmul own transpose" => (a.f[0].matmul(&a.f[0].t()), a.f[0].t().matmul(&a.f[0]));
    "matvec" => a.f[0].matvec(&a.f[1]);
    "matvec_t" => matvec_t(a);
    "rfft_norm" => signal::rfft_norm(&a.f[0], ());
    "rfft_norm length" => rfft_len(a);
    "histogram" => (stats::histogram(&a.f[0], 1 + a.k[0] % 12), stats::histogram(a.f[0].clone(), ()));
    "histogram2d" => stats::histogram2d(pairs(&a.f[0]), 1 + a.k[0] % 6);
    "read_file" => essay_tensor::io::read_file(&a.s[0]).map_err(|e| e.kind()).is_err();
    "decode_wav" => essay_tensor::io::decode_wav(&a.u[0].map(|v| *v as u8));
};

/// How the second and third operands relate to the first
pub const RELATIONS: u8 = 10;

pub fn related(s: &[usize], rel: u8, salt: usize) -> Vec<usize> {
    let n = s.len();
    let mut r = s.to_vec();
    match rel % RELATIONS {
        // a suffix
        1 | 2 => r[salt % (n + 1)..].to_vec(),
        // larger
        3 => {
            if n < 6 {
                r.insert(0, 1 + salt % 3);
            }
            r
        }
        // the right-hand side of a product
        4 | 5 => {
            if n >= 2 {
                r[n - 2] = s[n - 1];
                r[n - 1] = 1 + salt % 5;
            }
            r
        }
        // transposed
        6 => {
            if n >= 2 {
                r.swap(n - 1, n - 2);
            }
            r
        }
        // a vector for a matrix
        7 => match n {
            0 | 1 => r,
            _ => vec![if salt % 3 == 0 { s[n - 2] } else { s[n - 1] }],
        },
        // one dimension differs
        8 => {
            if n > 0 {
                r[salt % n] = 1 + salt % 4;
            }
            r
        }
        _ => r,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ArgSpec {
    pub shape: Vec<usize>,
    pub rel: (u8, u8),
    pub salt: (usize, usize),
    pub v: V,
    pub prov: (Prov, Prov, Prov),
    pub k: [usize; 4],
    pub x: [i32; 3],
    pub axis: isize,
}

pub fn arg_spec(shape: BoxedStrategy<Vec<usize>>, prov: fn() -> BoxedStrategy<Prov>) -> BoxedStrategy<ArgSpec> {
    (
        shape,
        (0..RELATIONS, 0..RELATIONS),
        (0usize..60, 0usize..60),
        vals(&[IOTA, SMALL, EXTREME, MODERATE]),
        (prov(), prov(), prov()),
        prop::array::uniform4(0usize..1000),
        prop::array::uniform3(-40i32..40),
        prop_oneof![8 => -3isize..=3, 1 => -7isize..=7],
    )
        .prop_map(|(shape, rel, salt, v, prov, k, x, axis)| ArgSpec { shape, rel, salt, v, prov, k, x, axis })
        .boxed()
}

impl ArgSpec {
    pub fn shapes(&self) -> [Vec<usize>; 3] {
        [self.shape.clone(), related(&self.shape, self.rel.0, self.salt.0), related(&self.shape, self.rel.1, self.salt.1)]
    }
    fn models<T: Elem>(&self, tag: u32) -> Vec<M<T>> {
        self.shapes()
            .into_iter()
            .enumerate()
            .map(|(k, s)| {
                let n = size(&s);
                let seed = self.v.seed ^ (tag * 101 + k as u32 * 7919);
                M::new(s, (0..n).map(|i| T::make(self.v.kind, seed, i)).collect())
            })
            .collect()
    }
    fn three<T: Elem>(&self, tag: u32, place: &mut dyn FnMut(&M<T>, usize) -> Tensor<T>) -> Vec<Tensor<T>> {
        self.models::<T>(tag).iter().enumerate().map(|(k, m)| place(m, k)).collect()
    }
    /// operands with the wanted provenance, or all freshly built
    pub fn build(&self, views: bool) -> Args {
        let provs = [&self.prov.0, &self.prov.1, &self.prov.2];
        macro_rules! three {
            ($tag:expr) => {
                self.three($tag, &mut |m, k| {
                    let p = if views { provs[k].clone() } else { Prov::Fresh };
                    place_or_fresh(m, &p, self.v.seed ^ 77).0
                })
            };
        }
        Args {
            f: three!(1),
            d: three!(2),
            i: three!(3),
            u: three!(4),
            c: three!(5),
            s: three!(6),
            k: self.k,
            x: [self.x[0] as f32 / 8., self.x[1] as f32 / 8., self.x[2] as f32 / 8.],
            axis: self.axis,
        }
    }
}

/// run an operation; None when it is refused
pub fn call(op: usize, a: &Args) -> Option<Out> {
    crate::fw::attempt(|| OPS[op % OPS.len()].1(a))
}

pub fn describe(s: &Option<Seen>) -> String {
    let mut t = match s {
        None => "refused".to_string(),
        Some(s) => format!("{:?}", s),
    };
    if t.len() > 400 {
        let mut n = 400;
        while !t.is_char_boundary(n) {
            n -= 1;
        }
        t.truncate(n);
    }
    t
}
