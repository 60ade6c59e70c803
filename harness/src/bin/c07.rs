//! C07: element-wise operations apply the element operation at every position
use num_complex::Complex;
use num_traits::MulAdd;
use std::ops::{Add, BitAnd, BitOr, BitXor, Div, Mul, Rem, Shl, Shr, Sub};
use vharness::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    op: u8,
    a: TS,
    bv: V,
    bprov: Prov,
    /// the second operand is the first tensor itself
    alias: bool,
}

struct Two<T: Type> {
    a: Tensor<T>,
    ma: M<T>,
    b: Tensor<T>,
    mb: M<T>,
    s: T,
    _keep: (Vec<Tensor<T>>, Vec<Tensor<T>>),
}

fn two<T: Elem>(c: &Case) -> Two<T> {
    let (a, b) = pair_of::<T>(&c.a, &TS { shape: c.a.shape.clone(), v: c.bv, prov: c.bprov.clone() });
    let (b, mb, keep) = if c.alias { (a.t.clone(), a.m.clone(), vec![]) } else { (b.t, b.m, b.keep) };
    let s = T::make(c.bv.kind, c.bv.seed ^ 0x55, 3);
    Two { a: a.t, ma: a.m, b, mb, s, _keep: (a.keep, keep) }
}

/// compare a call of the library with the model: both may refuse (panic), or
/// both give the same elements
fn agree<U: Elem>(what: &str, got: impl FnOnce() -> Tensor<U>, want: impl FnOnce() -> M<U>) -> R {
    match (attempt(got), attempt(want)) {
        (Some(t), Some(m)) => expect(what, &t, &m),
        (None, None) => Ok(()),
        (Some(_), None) => Err(format!("{}: gave a result where the element operation panics", what)),
        (None, Some(_)) => Err(format!("{}: panicked where the element operation does not: {}", what, vharness::fw::last_panic())),
    }
}

fn zip<A: Clone, B: Clone, U: Clone>(a: &M<A>, b: &M<B>, f: impl Fn(&A, &B) -> U) -> M<U> {
    M { shape: a.shape.clone(), data: a.data.iter().zip(&b.data).map(|(x, y)| f(x, y)).collect() }
}

/// the six forms with a tensor on the left
macro_rules! forms {
    ($name:literal, $two:expr, $f:path, $x:ident $y:ident $e:expr) => {{
        let t = $two;
        let w = || zip(&t.ma, &t.mb, |$x, $y| $e);
        agree(concat!($name, " T T"), || $f(t.a.clone(), t.b.clone()), &w)?;
        agree(concat!($name, " &T T"), || $f(&t.a, t.b.clone()), &w)?;
        agree(concat!($name, " T &T"), || $f(t.a.clone(), &t.b), &w)?;
        agree(concat!($name, " &T &T"), || $f(&t.a, &t.b), &w)?;
        agree(concat!($name, " T s"), || $f(t.a.clone(), t.s.clone()), || t.ma.map(|$x| { let $y = &t.s; $e }))?;
        agree(concat!($name, " &T s"), || $f(&t.a, t.s.clone()), || t.ma.map(|$x| { let $y = &t.s; $e }))?;
        // the operands are what they were
        expect(concat!($name, " left operand"), &t.a, &t.ma)?;
        expect(concat!($name, " right operand"), &t.b, &t.mb)?;
    }};
}
/// the two with a scalar on the left
macro_rules! left {
    ($name:literal, $two:expr, $f:path, $x:ident $y:ident $e:expr) => {{
        let t = $two;
        agree(concat!($name, " s T"), || $f(t.s.clone(), t.b.clone()), || t.mb.map(|$y| { let $x = &t.s; $e }))?;
        agree(concat!($name, " s &T"), || $f(t.s.clone(), &t.b), || t.mb.map(|$y| { let $x = &t.s; $e }))?;
    }};
}
macro_rules! both {
    ($name:literal, $two:expr, $f:path, $x:ident $y:ident $e:expr) => {{
        forms!($name, $two, $f, $x $y $e);
        left!($name, $two, $f, $x $y $e);
    }};
}
macro_rules! un {
    ($two:expr, $($m:ident)*) => {{ $( agree(stringify!($m), || $two.a.$m(), || $two.ma.map(|x| x.$m()))?; )* }};
}

macro_rules! arith {
    ($c:expr, $two:expr) => {
        match $c.op % 5 {
            0 => both!("+", $two, Add::add, x y x.clone() + y.clone()),
            1 => both!("-", $two, Sub::sub, x y x.clone() - y.clone()),
            2 => both!("*", $two, Mul::mul, x y x.clone() * y.clone()),
            3 => both!("/", $two, Div::div, x y x.clone() / y.clone()),
            _ => both!("%", $two, Rem::rem, x y x.clone() % y.clone()),
        }
    };
}

macro_rules! int_case {
    ($name:ident, $t:ty, $signed:tt) => {
        fn $name(c: &Case) -> R {
            let t = &two::<$t>(c);
            match c.op % 16 {
                0..=4 => arith!(c, t),
                5 => both!("&", t, BitAnd::bitand, x y x & y),
                6 => both!("|", t, BitOr::bitor, x y x | y),
                7 => both!("^", t, BitXor::bitxor, x y x ^ y),
                8 => both!("<<", t, Shl::shl, x y x.clone() << y.clone()),
                9 => both!(">>", t, Shr::shr, x y x.clone() >> y.clone()),
                10 => {
                    // small shifts, which do not overflow
                    let bits = (std::mem::size_of::<$t>() * 8) as u64;
                    let mb = t.mb.map(|x| ((*x as u64) % bits) as u32);
                    let b = Tensor::from_vec(mb.data.clone(), mb.shape.as_slice());
                    agree("<< by u32", || &t.a << &b, || zip(&t.ma, &mb, |x, y| x << y))?;
                    agree(">> by u32", || &t.a >> &b, || zip(&t.ma, &mb, |x, y| x >> y))?;
                    agree("<< by u32 scalar", || &t.a << 3u32, || t.ma.map(|x| x << 3u32))?;
                    agree(">> by u32 scalar", || t.a.clone() >> 3u32, || t.ma.map(|x| x >> 3u32))?;
                }
                11 => {
                    agree("!T", || !t.a.clone(), || t.ma.map(|x| !x))?;
                    agree("!&T", || !&t.a, || t.ma.map(|x| !x))?;
                    agree("min", || t.a.min(&t.b), || zip(&t.ma, &t.mb, |x, y| if y < x { *y } else { *x }))?;
                    agree("max", || t.a.max(&t.b), || zip(&t.ma, &t.mb, |x, y| if y > x { *y } else { *x }))?;
                    agree("min of a scalar", || t.a.min(t.s), || t.ma.map(|x| if t.s < *x { t.s } else { *x }))?;
                    agree("max of a scalar", || t.a.max(t.s), || t.ma.map(|x| if t.s > *x { t.s } else { *x }))?;
                    agree("square", || t.a.square(), || t.ma.map(|x| x * x))?;
                }
                12 => un!(t, count_ones count_zeros leading_ones leading_zeros trailing_ones trailing_zeros),
                13 => un!(t, swap_bytes reverse_bits to_be to_le),
                14 => {
                    let mb = t.mb.map(|x| *x as u32);
                    let b = Tensor::from_vec(mb.data.clone(), mb.shape.as_slice());
                    agree("rotate_left", || t.a.rotate_left(&b), || zip(&t.ma, &mb, |x, y| x.rotate_left(*y)))?;
                    agree("rotate_right", || t.a.rotate_right(&b), || zip(&t.ma, &mb, |x, y| x.rotate_right(*y)))?;
                }
                _ => int_case!(@signed $signed, c, t),
            }
            Ok(())
        }
    };
    (@signed true, $c:expr, $t:expr) => {{
        let t = $t;
        agree("abs", || t.a.abs(), || t.ma.map(|x| num_traits::Signed::abs(x)))?;
        agree("abs_sub", || t.a.abs_sub(&t.b), || zip(&t.ma, &t.mb, |x, y| num_traits::Signed::abs_sub(x, y)))?;
        agree("neg", || Tensor::neg(&t.a), || t.ma.map(|x| -x))?;
        agree("-T", || -t.a.clone(), || t.ma.map(|x| -x))?;
        agree("-&T", || -&t.a, || t.ma.map(|x| -x))?;
        agree("is_negative", || t.a.is_negative(), || t.ma.map(|x| *x < 0))?;
        agree("is_positive", || t.a.is_positive(), || t.ma.map(|x| *x > 0))?;
    }};
    (@signed false, $c:expr, $t:expr) => {{
        agree("square", || $t.a.square(), || $t.ma.map(|x| x * x))?
    }};
}
int_case!(c_i8, i8, true);
int_case!(c_i16, i16, true);
int_case!(c_i32, i32, true);
int_case!(c_i64, i64, true);
int_case!(c_i128, i128, true);
int_case!(c_isize, isize, true);
int_case!(c_u8, u8, false);
int_case!(c_u16, u16, false);
int_case!(c_u32, u32, false);
int_case!(c_u64, u64, false);
int_case!(c_u128, u128, false);
int_case!(c_usize, usize, false);

macro_rules! float_case {
    ($name:ident, $t:ty) => {
        fn $name(c: &Case) -> R {
            let t = &two::<$t>(c);
            match c.op % 16 {
                0..=4 => arith!(c, t),
                5 => un!(t, floor ceil round trunc fract signum recip),
                6 => un!(t, sqrt exp exp2 ln log2 log10),
                7 => un!(t, to_degrees to_radians cbrt exp_m1 ln_1p),
                8 => un!(t, sin asin sinh asinh cos acos cosh acosh),
                9 => un!(t, tan atan tanh atanh sin_cos),
                10 => {
                    agree("powf", || t.a.powf(&t.b), || zip(&t.ma, &t.mb, |x, y| x.powf(*y)))?;
                    agree("log", || t.a.log(&t.b), || zip(&t.ma, &t.mb, |x, y| x.log(*y)))?;
                    agree("hypot", || t.a.hypot(&t.b), || zip(&t.ma, &t.mb, |x, y| x.hypot(*y)))?;
                    agree("atan2", || t.a.atan2(&t.b), || zip(&t.ma, &t.mb, |x, y| x.atan2(*y)))?;
                    agree("copysign", || t.a.copysign(&t.b), || zip(&t.ma, &t.mb, |x, y| x.copysign(*y)))?;
                }
                11 => {
                    let mb = t.mb.map(|x| (*x as i32) % 9);
                    let b = Tensor::from_vec(mb.data.clone(), mb.shape.as_slice());
                    agree("powi", || t.a.powi(&b), || zip(&t.ma, &mb, |x, y| x.powi(*y)))?;
                    agree("powi of a scalar", || t.a.powi(3), || t.ma.map(|x| x.powi(std::hint::black_box(3))))?;
                }
                12 => {
                    agree("mul_add", || t.a.clone().mul_add(&t.b, &t.a), || zip(&t.ma, &t.mb, |x, y| MulAdd::mul_add(*x, *y, *x)))?;
                    let mc = t.mb.map(|x| x * 0.5 + 1.);
                    let tc = Tensor::from_vec(mc.data.clone(), mc.shape.as_slice());
                    let want = || M { shape: t.ma.shape.clone(), data: (0..mc.data.len()).map(|i| MulAdd::mul_add(t.ma.data[i], t.mb.data[i], mc.data[i])).collect() };
                    agree("mul_add", || t.a.clone().mul_add(&t.b, &tc), want)?;
                }
                13 => {
                    agree("abs", || t.a.abs(), || t.ma.map(|x| num_traits::Signed::abs(x)))?;
                    agree("abs_sub", || t.a.abs_sub(&t.b), || zip(&t.ma, &t.mb, |x, y| num_traits::Signed::abs_sub(x, y)))?;
                    agree("neg", || Tensor::neg(&t.a), || t.ma.map(|x| -x))?;
                    agree("-T", || -t.a.clone(), || t.ma.map(|x| -x))?;
                    agree("-&T", || -&t.a, || t.ma.map(|x| -x))?;
                    agree("is_negative", || t.a.is_negative(), || t.ma.map(|x| num_traits::Signed::is_negative(x)))?;
                    agree("is_positive", || t.a.is_positive(), || t.ma.map(|x| num_traits::Signed::is_positive(x)))?;
                }
                _ => agree("square", || t.a.square(), || t.ma.map(|x| x * x))?,
            }
            Ok(())
        }
    };
}
float_case!(c_f32, f32);
float_case!(c_f64, f64);

fn c_bool(c: &Case) -> R {
    let t = &two::<bool>(c);
    both!("&", t, BitAnd::bitand, x y x & y);
    both!("|", t, BitOr::bitor, x y x | y);
    both!("^", t, BitXor::bitxor, x y x ^ y);
    agree("!T", || !t.a.clone(), || t.ma.map(|x| !x))?;
    agree("!&T", || !&t.a, || t.ma.map(|x| !x))?;
    agree("min", || t.a.min(&t.b), || zip(&t.ma, &t.mb, |x, y| *x && *y))?;
    agree("max", || t.a.max(&t.b), || zip(&t.ma, &t.mb, |x, y| *x || *y))
}

macro_rules! complex_case {
    ($name:ident, $t:ty) => {
        fn $name(c: &Case) -> R {
            type C = Complex<$t>;
            let t = &two::<C>(c);
            let re = t.mb.map(|x| x.re);
            let tre = Tensor::from_vec(re.data.clone(), re.shape.as_slice());
            match c.op % 8 {
                0 => forms!("+", t, Add::add, x y x + y),
                1 => forms!("-", t, Sub::sub, x y x - y),
                2 => forms!("*", t, Mul::mul, x y x * y),
                3 => forms!("/", t, Div::div, x y x / y),
                4 => {
                    un!(t, norm_sqr conj inv l1_norm norm arg to_polar finv);
                    agree("-T", || -t.a.clone(), || t.ma.map(|x| -x))?;
                    agree("re", || t.a.re(), || t.ma.map(|x| x.re))?;
                    agree("im", || t.a.im(), || t.ma.map(|x| x.im))?;
                }
                5 => {
                    agree("scale", || t.a.scale(&tre), || zip(&t.ma, &re, |x, y| x.scale(*y)))?;
                    agree("unscale", || t.a.unscale(&tre), || zip(&t.ma, &re, |x, y| x.unscale(*y)))?;
                    agree("expf", || t.a.expf(&tre), || zip(&t.ma, &re, |x, y| x.expf(*y)))?;
                    agree("C * real", || &t.a * t.s.re, || t.ma.map(|x| x * t.s.re))?;
                    agree("C + real", || &t.a + &tre, || zip(&t.ma, &re, |x, y| x + y))?;
                }
                6 => {
                    let u = t.mb.map(|x| (x.re as i64).unsigned_abs() as u32 % 9);
                    let tu = Tensor::from_vec(u.data.clone(), u.shape.as_slice());
                    agree("powu", || t.a.powu(&tu), || zip(&t.ma, &u, |x, y| x.powu(*y)))?;
                    agree("powc", || t.a.powc(&t.b), || zip(&t.ma, &t.mb, |x, y| x.powc(*y)))?;
                    agree("fdiv", || t.a.fdiv(&t.b), || zip(&t.ma, &t.mb, |x, y| x.fdiv(*y)))?;
                }
                _ => {
                    let p = t.ma.map(|x| (x.re, x.im));
                    let tp = Tensor::from_vec(p.data.clone(), p.shape.as_slice());
                    agree("from_polar", || Tensor::<C>::from_polar(&tp), || p.map(|x| C::from_polar(x.0, x.1)))?;
                    agree("square", || t.a.square(), || t.ma.map(|x| x * x))?;
                    un!(t, to_polar);
                }
            }
            Ok(())
        }
    };
}
complex_case!(c_c32, f32);
complex_case!(c_c64, f64);

// A type whose operations record their operands, so that order and pairing show
#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
struct Lhs(u32);
#[derive(Clone, Debug, PartialEq)]
struct Rhs(u32);
#[derive(Clone, Debug, PartialEq)]
struct Out(char, u32, u32);
impl Type for Lhs {}
impl Type for Rhs {}
impl Type for Out {}
impl Elem for Lhs {
    fn make(k: u8, s: u32, i: usize) -> Self { Lhs(u32::make(k, s, i)) }
}
impl Elem for Rhs {
    fn make(k: u8, s: u32, i: usize) -> Self { Rhs(u32::make(k, s, i)) }
}
impl Elem for Out {
    fn make(k: u8, s: u32, i: usize) -> Self { Out('?', u32::make(k, s, i), 0) }
}
macro_rules! rec {
    ($($op:ident $f:ident $c:literal),*) => { $(
        impl $op<Rhs> for Lhs { type Output = Out; fn $f(self, r: Rhs) -> Out { Out($c, self.0, r.0) } }
    )* };
}
rec!(Add add '+', Sub sub '-', Mul mul '*', Div div '/', Rem rem '%', BitAnd bitand '&', BitOr bitor '|', BitXor bitxor '^', Shl shl '<', Shr shr '>');

fn c_recorded(c: &Case) -> R {
    let a = c.a.build::<Lhs>();
    let b = TS { shape: c.a.shape.clone(), v: c.bv, prov: c.bprov.clone() }.build::<Rhs>();
    let s = Rhs(c.bv.seed + 7);
    macro_rules! go {
        ($($f:path, $c:literal);*) => { $(
            let w = zip(&a.m, &b.m, |x, y| Out($c, x.0, y.0));
            let ws = a.m.map(|x| Out($c, x.0, s.0));
            agree("T T", || $f(a.t.clone(), b.t.clone()), || w.clone())?;
            agree("&T T", || $f(&a.t, b.t.clone()), || w.clone())?;
            agree("T &T", || $f(a.t.clone(), &b.t), || w.clone())?;
            agree("&T &T", || $f(&a.t, &b.t), || w.clone())?;
            agree("T s", || $f(a.t.clone(), s.clone()), || ws.clone())?;
            agree("&T s", || $f(&a.t, s.clone()), || ws.clone())?;
        )* };
    }
    go!(Add::add, '+'; Sub::sub, '-'; Mul::mul, '*'; Div::div, '/'; Rem::rem, '%'; BitAnd::bitand, '&'; BitOr::bitor, '|'; BitXor::bitxor, '^'; Shl::shl, '<'; Shr::shr, '>');
    Ok(())
}

/// map, map2, map3: one call per position, in order, with that position's elements
fn c_calls(c: &Case) -> R {
    let a = c.a.build::<u32>();
    let b = TS { shape: c.a.shape.clone(), v: c.bv, prov: c.bprov.clone() }.build::<String>();
    let d = TS { shape: c.a.shape.clone(), v: V { kind: IOTA, seed: c.bv.seed / 2 }, prov: Prov::Fresh }.build::<i64>();
    let n = a.m.data.len();
    let mut calls: Vec<u32> = vec![];
    let t = a.t.map(|x| { calls.push(*x); calls.len() });
    ensure!(calls == a.m.data, "map called with {:?}, expected {:?}", &calls[..calls.len().min(20)], &a.m.data[..n.min(20)]);
    expect("map", &t, &M::new(c.a.shape.clone(), (1..=n).collect()))?;
    let mut calls = vec![];
    let t = a.t.map2(&b.t, |x, y| { calls.push((*x, y.clone())); calls.len() as u16 });
    let want: Vec<_> = (0..n).map(|i| (a.m.data[i], b.m.data[i].clone())).collect();
    ensure!(calls == want, "map2 calls differ: {:?} expected {:?}", &calls[..calls.len().min(20)], &want[..n.min(20)]);
    expect("map2", &t, &M::new(c.a.shape.clone(), (1..=n).map(|i| i as u16).collect()))?;
    let mut calls = vec![];
    let t = b.t.map3(&d.t, &a.t, |y, z, x| { calls.push((y.clone(), *z, *x)); format!("{}", calls.len()) });
    let want: Vec<_> = (0..n).map(|i| (b.m.data[i].clone(), d.m.data[i], a.m.data[i])).collect();
    ensure!(calls == want, "map3 calls differ: {:?} expected {:?}", &calls[..calls.len().min(20)], &want[..n.min(20)]);
    expect("map3", &t, &M::new(c.a.shape.clone(), (1..=n).map(|i| format!("{}", i)).collect()))
}

fn main() {
    const F: &[(&str, fn(&Case) -> R)] = &[
        ("i8", c_i8), ("i16", c_i16), ("i32", c_i32), ("i64", c_i64), ("i128", c_i128), ("isize", c_isize),
        ("u8", c_u8), ("u16", c_u16), ("u32", c_u32), ("u64", c_u64), ("u128", c_u128), ("usize", c_usize),
        ("f32", c_f32), ("f64", c_f64), ("bool", c_bool), ("c32", c_c32), ("c64", c_c64), ("f32", c_f32), ("f64", c_f64),
    ];
    let case = |cap: usize, kinds: &'static [u8]| {
        (0u8..F.len() as u8, 0u8..16, ts(mshape(0, 6, cap), kinds), vals(kinds), prov(), prop::bool::weighted(0.15))
            .prop_map(|(ty, op, a, bv, bprov, alias)| Case { ty, op, a, bv, bprov, alias })
    };
    let run = |c: &Case, ctx: &mut Ctx| {
        let (name, f) = F[c.ty as usize];
        ctx.nt(c.a.size() > 1);
        ctx.label(name);
        ctx.label_if(c.a.prov.is_view() || c.bprov.is_view(), "operand is a view with an offset");
        ctx.label_if(c.alias, "operands share storage");
        ctx.label_if(c.a.shape.is_empty(), "scalar tensors");
        f(c)
    };
    vharness::fw::main(Prop {
        id: "C07",
        rule: "a case is an operation on tensors of equal shape (or tensor and scalar) of one element type, all ownership forms; non-trivial: more than one element",
        subs: vec![
            sub("empty", 3_000, vharness::empties::empty(), |c, ctx| vharness::empties::check("C07", c, ctx)),
            sub("small_values", 120_000, case(600, &[SMALL, IOTA, MODERATE, ROUGH]), run),
            sub("extreme_values", 120_000, case(300, &[EXTREME, CONST, SMALL]), run),
            sub("large", 3_000, case(150_000, &[SMALL, EXTREME]), run),
            sub("recorded", 15_000, case(1_000, &[IOTA, EXTREME]), |c, ctx| { ctx.nt(c.a.size() > 1); c_recorded(c) }),
            sub("calls", 20_000, case(3_000, &[IOTA, EXTREME]), |c, ctx| { ctx.nt(c.a.size() > 1); c_calls(c) }),
        ],
    });
}
