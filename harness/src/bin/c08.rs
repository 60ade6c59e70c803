//! C08: broadcasting pairs elements by repeating the smaller operand
use num_traits::MulAdd;
use std::ops::{Add, Div, Mul, Rem, Shl, Sub};
use vharness::prelude::*;

#[derive(Clone, Debug, PartialEq)]
struct Lhs(u32);
#[derive(Clone, Debug, PartialEq)]
struct Rhs(u32);
#[derive(Clone, Debug, PartialEq)]
struct Out(char, u32, u32);
impl Type for Lhs {}
impl Type for Rhs {}
impl Type for Out {}
impl Elem for Lhs {
    fn make(k: u8, s: u32, i: usize) -> Self { Lhs(u32::make(k, s, i)) }
}
impl Elem for Rhs {
    fn make(k: u8, s: u32, i: usize) -> Self { Rhs(u32::make(k, s, i)) }
}
impl Elem for Out {
    fn make(k: u8, s: u32, i: usize) -> Self { Out('?', u32::make(k, s, i), 0) }
}
macro_rules! rec {
    ($($op:ident $f:ident $c:literal),*) => { $(
        impl $op<Rhs> for Lhs { type Output = Out; fn $f(self, r: Rhs) -> Out { Out($c, self.0, r.0) } }
    )* };
}
rec!(Add add '+', Sub sub '-', Mul mul '*', Div div '/', Rem rem '%', Shl shl '<');

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    a: TS,
    b: TS,
    c: TS,
}

fn agree<U: Elem>(what: &str, shapes: &[&[usize]], got: impl FnOnce() -> Tensor<U>, want: &Option<M<U>>) -> R {
    match want {
        Some(m) => expect(what, &accepts(|| format!("{} of {:?}", what, shapes), got)?, m).map_err(|e| format!("{} (operands {:?})", e, shapes)),
        None => rejects(|| format!("{} of {:?}", what, shapes), got),
    }
}

fn pair<A: Clone, B: Clone, U: Clone>(a: &M<A>, b: &M<B>, f: impl Fn(&A, &B) -> U) -> Option<M<U>> {
    let shape = broadcast(&[&a.shape, &b.shape])?;
    Some(M::from_fn(shape, |i| f(a.tail_at(i), b.tail_at(i))))
}

fn classify(shapes: &[&[usize]], ctx: &mut Ctx) {
    let bc = broadcast(shapes).is_some();
    let differ = shapes.iter().any(|s| *s != shapes[0]);
    ctx.label(match (bc, differ) {
        (true, false) => "equal shapes",
        (true, true) => "broadcast",
        (false, _) => {
            let sizes: Vec<usize> = shapes.iter().map(|s| size(s)).collect();
            let max = *sizes.iter().max().unwrap();
            if sizes.iter().all(|s| *s > 0 && max % s == 0) { "refused although the counts divide" } else { "refused" }
        }
    });
    ctx.nt(differ);
}

fn binary(c: &Case, ctx: &mut Ctx) -> R {
    let (a, b) = (c.a.build::<Lhs>(), c.b.build::<Rhs>());
    let sh: &[&[usize]] = &[&c.a.shape, &c.b.shape];
    classify(sh, ctx);
    let n = broadcast(sh).map(|s| size(&s));
    let mut calls = vec![];
    let want = pair(&a.m, &b.m, |x, y| Out('m', x.0, y.0));
    agree("map2", sh, || a.t.map2(&b.t, |x, y| { calls.push((x.0, y.0)); Out('m', x.0, y.0) }), &want)?;
    if let Some(n) = n {
        ensure!(calls.len() == n, "map2 called the function {} times for {} positions", calls.len(), n);
        let seq: Vec<_> = want.as_ref().unwrap().data.iter().map(|o| (o.1, o.2)).collect();
        ensure!(calls == seq, "map2 called the function out of order");
    }
    macro_rules! go {
        ($($f:path, $c:literal);*) => { $(
            let w = pair(&a.m, &b.m, |x, y| Out($c, x.0, y.0));
            agree("T T", sh, || $f(a.t.clone(), b.t.clone()), &w)?;
            agree("&T T", sh, || $f(&a.t, b.t.clone()), &w)?;
            agree("T &T", sh, || $f(a.t.clone(), &b.t), &w)?;
            agree("&T &T", sh, || $f(&a.t, &b.t), &w)?;
        )* };
    }
    match c.c.v.seed % 3 {
        0 => { go!(Add::add, '+'; Sub::sub, '-'); }
        1 => { go!(Mul::mul, '*'; Div::div, '/'); }
        _ => { go!(Rem::rem, '%'; Shl::shl, '<'); }
    }
    // shapes themselves
    let (sa, sb) = (Shape::from(c.a.shape.as_slice()), Shape::from(c.b.shape.as_slice()));
    match broadcast(sh) {
        Some(s) => {
            let got = accepts(|| format!("broadcast_to {:?}", sh), || sa.broadcast_to(&sb))?;
            ensure!(got.as_vec() == s, "broadcast_to of {:?} is {:?}", sh, got);
            let k = accepts(|| format!("broadcast {:?}", sh), || sa.broadcast(&sb))?;
            ensure!(k == size(&s), "broadcast of {:?} is {}", sh, k);
            accepts(|| format!("check_broadcast {:?}", sh), || sa.check_broadcast(&sb))?;
        }
        None => {
            rejects(|| format!("broadcast_to {:?}", sh), || sa.broadcast_to(&sb))?;
            rejects(|| format!("broadcast {:?}", sh), || sa.broadcast(&sb))?;
            rejects(|| format!("check_broadcast {:?}", sh), || sa.check_broadcast(&sb))?;
        }
    }
    Ok(())
}

fn methods(c: &Case, ctx: &mut Ctx) -> R {
    let sh: &[&[usize]] = &[&c.a.shape, &c.b.shape];
    classify(sh, ctx);
    match c.c.v.seed % 4 {
        0 => {
            let (a, b) = pair_of::<f32>(&c.a, &c.b);
            agree("powf", sh, || a.t.powf(&b.t), &pair(&a.m, &b.m, |x, y| x.powf(*y)))?;
            agree("log", sh, || a.t.log(&b.t), &pair(&a.m, &b.m, |x, y| x.log(*y)))?;
            agree("hypot", sh, || a.t.hypot(&b.t), &pair(&a.m, &b.m, |x, y| x.hypot(*y)))?;
            agree("atan2", sh, || a.t.atan2(&b.t), &pair(&a.m, &b.m, |x, y| x.atan2(*y)))?;
            agree("copysign", sh, || a.t.copysign(&b.t), &pair(&a.m, &b.m, |x, y| x.copysign(*y)))?;
            agree("abs_sub", sh, || a.t.abs_sub(&b.t), &pair(&a.m, &b.m, |x, y| num_traits::Signed::abs_sub(x, y)))
        }
        1 => {
            let (a, b) = pair_of::<i64>(&c.a, &c.b);
            agree("min", sh, || a.t.min(&b.t), &pair(&a.m, &b.m, |x, y| *x.min(y)))?;
            agree("max", sh, || a.t.max(&b.t), &pair(&a.m, &b.m, |x, y| *x.max(y)))?;
            agree("&", sh, || &a.t & &b.t, &pair(&a.m, &b.m, |x, y| x & y))?;
            agree("|", sh, || &a.t | &b.t, &pair(&a.m, &b.m, |x, y| x | y))?;
            agree("^", sh, || &a.t ^ &b.t, &pair(&a.m, &b.m, |x, y| x ^ y))
        }
        2 => {
            let (a, b) = (c.a.build::<u16>(), c.b.build::<u32>());
            agree("rotate_left", sh, || a.t.rotate_left(&b.t), &pair(&a.m, &b.m, |x, y| x.rotate_left(*y)))?;
            agree("rotate_right", sh, || a.t.rotate_right(&b.t), &pair(&a.m, &b.m, |x, y| x.rotate_right(*y)))
        }
        _ => {
            let (a, b) = (c.a.build::<num_complex::Complex<f64>>(), c.b.build::<f64>());
            agree("scale", sh, || a.t.scale(&b.t), &pair(&a.m, &b.m, |x, y| x.scale(*y)))?;
            let b = c.b.build::<i32>();
            let a = c.a.build::<f64>();
            let mb = b.m.map(|x| x % 7);
            let tb = Tensor::from_vec(mb.data.clone(), mb.shape.as_slice());
            agree("powi", sh, || a.t.powi(&tb), &pair(&a.m, &mb, |x, y| x.powi(*y)))
        }
    }
}

fn ternary(c: &Case, ctx: &mut Ctx) -> R {
    let (a, b, d) = (c.a.build::<u32>(), c.b.build::<String>(), c.c.build::<i64>());
    let sh: &[&[usize]] = &[&c.a.shape, &c.b.shape, &c.c.shape];
    classify(sh, ctx);
    let want = broadcast(sh).map(|s| M::from_fn(s, |i| (*a.m.tail_at(i), b.m.tail_at(i).clone(), *d.m.tail_at(i))));
    let mut calls = vec![];
    let w = want.as_ref().map(|m| m.map(|x| format!("{:?}", x)));
    agree("map3", sh, || a.t.map3(&b.t, &d.t, |x, y, z| {
        calls.push((*x, y.clone(), *z));
        format!("{:?}", (*x, y.clone(), *z))
    }), &w)?;
    if let Some(m) = &want {
        ensure!(calls == m.data, "map3 of {:?} called the function in another order or number of times ({} for {})", sh, calls.len(), m.data.len());
    }
    let ((a, b), d) = (pair_of::<f64>(&c.a, &c.b), c.c.build::<f64>());
    let want = broadcast(sh).map(|s| M::from_fn(s, |i| MulAdd::mul_add(*a.m.tail_at(i), *b.m.tail_at(i), *d.m.tail_at(i))));
    agree("mul_add", sh, || a.t.clone().mul_add(&b.t, &d.t), &want)
}

fn empties(c: &Case, ctx: &mut Ctx) -> R {
    ctx.nt(true);
    let e = Tensor::<i32>::from(Vec::<i32>::new());
    let none = M::<i32>::new(vec![0], vec![]);
    let s = Tensor::from(3);
    let a = c.a.build::<i32>();
    agree("empty + empty", &[], || &e + &e, &Some(none.clone()))?;
    agree("empty + scalar", &[], || &e + 3, &Some(none.clone()))?;
    agree("3 + empty", &[], || 3 + &e, &Some(none.clone()))?;
    agree("empty + scalar tensor", &[], || &e + &s, &Some(none.clone()))?;
    agree("scalar tensor + empty", &[], || &s + &e, &Some(none.clone()))?;
    agree("map3 of empties", &[], || e.map3(&s, &e, |x: &i32, y: &i32, z: &i32| x + y + z), &Some(none.clone()))?;
    if !c.a.shape.is_empty() {
        rejects(|| format!("empty + {:?}", c.a.shape), || &e + &a.t)?;
        rejects(|| format!("{:?} + empty", c.a.shape), || &a.t + &e)?;
        rejects(|| format!("map3 of {:?} and empty", c.a.shape), || a.t.map3(&s, &e, |x: &i32, y: &i32, z: &i32| x + y + z))?;
    }
    Ok(())
}

/// shapes related to a large one: suffixes mostly, and near misses
fn related(big: &[usize], how: u8, k: usize) -> Vec<usize> {
    let n = big.len();
    let suffix = |k: usize| big[n - (k % (n + 1))..].to_vec();
    let mut s = suffix(k);
    match how {
        0..=5 => s,
        6 => big.to_vec(),
        7 => big[..k % (n + 1)].to_vec(),
        8 => {
            // another dimension with the count still dividing
            if let Some(x) = s.first_mut() {
                *x = if *x % 2 == 0 { *x / 2 } else { 1 };
            }
            s
        }
        9 => {
            if !s.is_empty() {
                let i = k % s.len();
                s[i] += 1;
            }
            s
        }
        10 => {
            if !s.is_empty() {
                let i = k % s.len();
                s[i] = 1;
            }
            s
        }
        11 => {
            s.reverse();
            s
        }
        12 => {
            // same count, other rank
            vec![size(&s)]
        }
        _ => {
            if n < 6 {
                s = big.to_vec();
                s.insert(0, 1 + k % 4);
            }
            s
        }
    }
}

fn main() {
    let case = |cap: usize| {
        (mshape(0, 6, cap), prop::collection::vec((0u8..14, 0usize..7, vals(&[IOTA, SMALL]), prov()), 3..=3), 0u8..6).prop_map(|(big, r, big_at)| {
            let mut v: Vec<TS> = r.iter().map(|(how, k, v, prov)| TS { shape: related(&big, *how, *k), v: *v, prov: prov.clone() }).collect();
            if (big_at as usize) < 3 {
                v[big_at as usize].shape = big;
            }
            let c = v.pop().unwrap();
            let b = v.pop().unwrap();
            Case { a: v.pop().unwrap(), b, c }
        })
    };
    vharness::fw::main(Prop {
        id: "C08",
        rule: "a case is two or three operands of related shapes (suffixes, equal, prefixes, near misses with dividing counts); non-trivial: not all shapes are equal",
        subs: vec![
            sub("empty", 3_000, vharness::empties::empty(), |c, ctx| vharness::empties::check("C08", c, ctx)),
            sub("binary", 60_000, case(400), binary),
            sub("methods", 50_000, case(400), methods),
            sub("ternary", 60_000, case(300), ternary),
            sub("large", 1_500, case(100_000), ternary),
            sub("large2", 1_500, case(150_000), methods),
            sub("nothing", 300, case(20), empties),
        ],
    });
}
