//! Element types and value generation by position
use crate::fw::mix;
use essay_tensor::tensor::Type;
use num_complex::Complex;
use std::fmt::Debug;

/// value kinds
pub const IOTA: u8 = 0;
pub const SMALL: u8 = 1;
pub const EXTREME: u8 = 2;
pub const CONST: u8 = 3;
pub const MODERATE: u8 = 4;
/// floats of all mantissa bits and mixed magnitude: the order of additions shows
pub const ROUGH: u8 = 5;

pub trait Elem: Type + Clone + Debug + PartialEq {
    fn make(kind: u8, seed: u32, i: usize) -> Self;
    /// identical, bit for bit
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}

pub fn h(seed: u32, i: usize) -> u64 {
    mix((seed as u64) << 32 ^ mix(i as u64))
}

macro_rules! int_elem {
    ($($t:ident)*) => { $(
        impl Elem for $t {
            #[allow(unused_comparisons)]
            fn make(kind: u8, seed: u32, i: usize) -> Self {
                let r = h(seed, i);
                match kind {
                    SMALL => if $t::MIN < 0 { ((r % 7) as $t).wrapping_sub(3) } else { (r % 7) as $t },
                    EXTREME => match r % 10 {
                        0 => $t::MIN,
                        1 => $t::MAX,
                        2 => 0,
                        3 => 1,
                        4 => $t::MAX - 1,
                        5 => $t::MIN + 1,
                        6 => (0 as $t).wrapping_sub(1),
                        7 => $t::MAX / 2,
                        8 => mix(r) as $t,
                        _ => (mix(r) as u128 | (mix(r ^ 77) as u128) << 64) as $t,
                    },
                    CONST => (seed % 5) as $t,
                    MODERATE => ((r >> 8) % 100) as $t,
                    _ => ((seed as usize % 997).wrapping_add(i)) as $t,
                }
            }
        }
    )* }
}
int_elem!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);

macro_rules! float_elem {
    ($($t:ident $bits:ident),*) => { $(
        impl Elem for $t {
            fn make(kind: u8, seed: u32, i: usize) -> Self {
                let r = h(seed, i);
                match kind {
                    SMALL => (r % 7) as $t - 3.,
                    EXTREME => match r % 16 {
                        0 => $t::NAN,
                        1 => $t::INFINITY,
                        2 => $t::NEG_INFINITY,
                        3 => 0.0,
                        4 => -0.0,
                        5 => $t::MIN_POSITIVE,
                        6 => $t::MAX,
                        7 => $t::MIN,
                        8 => $t::MIN_POSITIVE / 2.,
                        9 => $t::EPSILON,
                        10 => 1.0,
                        11 => -1.0,
                        12 => { let v = $t::from_bits(mix(r) as $bits); if v.is_nan() { 0.5 } else { v } },
                        13 => (mix(r) % 2000) as $t / 8. - 125.,
                        14 => 1. - (mix(r) % 1000) as $t / 500.,
                        _ => 0.5 * ((mix(r) % 9) as $t - 4.),
                    },
                    CONST => (seed % 5) as $t - 2.,
                    MODERATE => (r % 20001) as $t / 64. - 156.25,
                    ROUGH => ((r >> 11) as $t / (1u64 << 53) as $t - 0.4) * (10 as $t).powi((r % 7) as i32 - 3),
                    _ => (seed as usize % 997 + i) as $t,
                }
            }
            fn same(&self, o: &Self) -> bool {
                self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan())
            }
        }
    )* }
}
float_elem!(f32 u32, f64 u64);

impl Elem for bool {
    fn make(kind: u8, seed: u32, i: usize) -> Self {
        match kind {
            CONST => seed % 2 == 0,
            _ => h(seed, i) % 2 == 0,
        }
    }
}

impl Elem for String {
    fn make(kind: u8, seed: u32, i: usize) -> Self {
        match kind {
            SMALL => format!("{}", h(seed, i) % 5),
            EXTREME => match h(seed, i) % 4 {
                0 => String::new(),
                1 => "é\u{1F600}\n\"".repeat(1 + (h(seed, i) >> 8) as usize % 20),
                _ => format!("{}-{}-padding-to-be-long", seed, i),
            },
            CONST => "c".to_string(),
            _ => format!("s{}", (seed as usize % 997) + i),
        }
    }
}

impl<T: Elem> Elem for Option<T> {
    fn make(kind: u8, seed: u32, i: usize) -> Self {
        if h(seed ^ 0xabc, i) % 4 == 0 { None } else { Some(T::make(kind, seed, i)) }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
}

impl<T: Elem> Elem for Complex<T> {
    fn make(kind: u8, seed: u32, i: usize) -> Self {
        Complex { re: T::make(kind, seed, i), im: T::make(kind, seed ^ 0x1357, i) }
    }
    fn same(&self, o: &Self) -> bool {
        self.re.same(&o.re) && self.im.same(&o.im)
    }
}

impl<A: Elem, B: Elem> Elem for (A, B) {
    fn make(kind: u8, seed: u32, i: usize) -> Self {
        (A::make(kind, seed, i), B::make(kind, seed ^ 0x2468, i))
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}

/// A plain user type with no numeric structure
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pt(pub u64, pub String);
impl Type for Pt {}
impl Elem for Pt {
    fn make(kind: u8, seed: u32, i: usize) -> Self {
        Pt(u64::make(kind, seed, i), String::make(kind, seed, i))
    }
}

/// Zero-sized element
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Zst;
impl Type for Zst {}
impl Elem for Zst {
    fn make(_: u8, _: u32, _: usize) -> Self {
        Zst
    }
}

/// Over-aligned element
#[derive(Clone, Debug, PartialEq)]
#[repr(align(64))]
pub struct Wide(pub u8);
impl Type for Wide {}
impl Elem for Wide {
    fn make(kind: u8, seed: u32, i: usize) -> Self {
        Wide(u8::make(kind, seed, i))
    }
}
