//! C09: folds and reductions combine exactly the elements along an axis, in order
use essay_tensor::tensor::FoldState;
use vharness::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    t: TS,
    axis: Option<(usize, bool)>,
    op: u8,
}

/// the groups to combine, and the shape of the result
fn groups<T: Clone>(m: &M<T>, axis: Option<(usize, bool)>) -> (Option<isize>, Vec<usize>, Vec<Vec<T>>) {
    match axis {
        Some((raw, neg)) if m.rank() > 0 => {
            let (a, k) = axis_of(raw, neg, m.rank());
            let (rest, g) = m.groups(k);
            (Some(a), rest, g)
        }
        _ => (None, vec![], vec![m.data.clone()]),
    }
}

fn want<T: Clone, U: Clone>(m: &M<T>, axis: Option<(usize, bool)>, f: impl Fn(&[T]) -> U) -> (Option<isize>, M<U>) {
    let (a, shape, g) = groups(m, axis);
    (a, M::new(shape, g.iter().map(|g| f(g)).collect()))
}

fn classify(c: &Case, ctx: &mut Ctx) {
    ctx.nt(c.t.size() > 1);
    match c.axis {
        Some((raw, neg)) if !c.t.shape.is_empty() => {
            let k = raw % c.t.shape.len();
            ctx.label(if c.t.shape.len() == 1 { "vector along its axis" } else if k == 0 { "outermost axis" } else if k + 1 == c.t.shape.len() { "innermost axis" } else { "middle axis" });
            ctx.label_if(neg, "negative axis");
        }
        _ => ctx.label("whole tensor"),
    }
}

/// state of another type than the result
#[derive(Clone, Debug)]
struct St(Vec<u32>, u32);
impl FoldState for St {
    type Out = String;
    fn into_result(self) -> String {
        format!("{}:{:?}", self.1, self.0)
    }
}

fn fold(c: &Case, ctx: &mut Ctx) -> R {
    classify(c, ctx);
    let b = c.t.build::<u32>();
    let (t, m) = (&b.t, &b.m);
    let init = 17 + c.t.v.seed as u64;
    let step = |s: u64, v: &u32| s.wrapping_mul(1_000_003).wrapping_add(*v as u64 + 1);
    let (a, w) = want(m, c.axis, |g| g.iter().fold(init, step));
    let mut calls = 0;
    let got = accepts(|| format!("fold_axis {:?} of {:?}", a, m.shape), || t.fold_axis(a, init, |s, v| { calls += 1; step(s, v) }))?;
    expect(&format!("fold_axis {:?}", a), &got, &w)?;
    ensure!(calls == m.data.len(), "fold_axis called the function {} times for {} elements", calls, m.data.len());
    if a.is_none() {
        expect("fold", &accepts(|| "fold".into(), || t.fold(init, step))?, &w)?;
    }
    if m.data.len() <= 2000 {
        let (_, w) = want(m, c.axis, |g| format!("9:{:?}", g));
        let f = |mut s: St, v: &u32| { s.0.push(*v); s };
        expect(&format!("fold_axis {:?} with a state", a), &t.fold_axis(a, St(vec![], 9), f), &w)?;
        if a.is_none() {
            expect("fold with a state", &t.fold(St(vec![], 9), f), &w)?;
        }
    }
    Ok(())
}

fn reduce(c: &Case, ctx: &mut Ctx) -> R {
    classify(c, ctx);
    let b = c.t.build::<u64>();
    let (t, m) = (&b.t, &b.m);
    // not commutative, not associative
    let f = |a: u64, b: u64| a.wrapping_mul(31).wrapping_sub(b.wrapping_mul(7)).wrapping_add(3);
    let (a, w) = want(m, c.axis, |g| g.iter().copied().reduce(f).unwrap());
    let got = accepts(|| format!("reduce_axis {:?} of {:?}", a, m.shape), || t.reduce_axis(a, f))?;
    expect(&format!("reduce_axis {:?}", a), &got, &w)?;
    if a.is_none() {
        expect("reduce", &t.reduce(f), &w)?;
    }
    if m.data.len() <= 1000 {
        let b = c.t.build::<String>();
        let f = |a: String, b: String| format!("({} {})", a.len() % 97, b);
        let (a, w) = want(&b.m, c.axis, |g| g.iter().cloned().reduce(f).unwrap());
        expect(&format!("reduce_axis {:?} of strings", a), &b.t.reduce_axis(a, f), &w)?;
        if a.is_none() {
            expect("reduce of strings", &b.t.reduce(f), &w)?;
        }
    }
    Ok(())
}

fn agree<U: Elem>(what: &str, got: impl FnOnce() -> Tensor<U>, want: impl FnOnce() -> M<U>, same: impl Fn(&U, &U) -> bool) -> R {
    match (attempt(got), attempt(want)) {
        (Some(t), Some(m)) => expect_by(what, &t, &m, same),
        (None, None) => Ok(()),
        (Some(_), None) => Err(format!("{}: gave a result where the element operation panics", what)),
        (None, Some(_)) => Err(format!("{}: panicked: {}", what, vharness::fw::last_panic())),
    }
}

macro_rules! sums {
    ($c:expr, $t:ty) => {{
        let b = $c.t.build::<$t>();
        let (t, m) = (&b.t, &b.m);
        let same = |a: &$t, b: &$t| a.same(b);
        let (a, _) = want(m, $c.axis, |_| 0u8);
        agree("reduce_sum_axis", || t.reduce_sum_axis(a), || want(m, $c.axis, |g| g.iter().copied().reduce(|a, b| a + b).unwrap()).1, same)?;
        agree("reduce_product_axis", || t.reduce_product_axis(a), || want(m, $c.axis, |g| g.iter().copied().reduce(|a, b| a * b).unwrap()).1, same)?;
        agree("reduce_sum", || t.reduce_sum(), || want(m, None, |g| g.iter().copied().reduce(|a, b| a + b).unwrap()).1, same)?;
        agree("reduce_product", || t.reduce_product(), || want(m, None, |g| g.iter().copied().reduce(|a, b| a * b).unwrap()).1, same)?;
    }};
}
macro_rules! extremes {
    ($c:expr, $t:ty) => {{
        let b = $c.t.build::<$t>();
        let (t, m) = (&b.t, &b.m);
        // the sign of a zero is not determined by min and max
        let same = |a: &$t, b: &$t| a == b || (a.is_nan() && b.is_nan());
        let (a, _) = want(m, $c.axis, |_| 0u8);
        let lo = |g: &[$t]| g.iter().copied().filter(|x| !x.is_nan()).reduce(|a, b| if b < a { b } else { a }).unwrap_or(<$t>::NAN);
        let hi = |g: &[$t]| g.iter().copied().filter(|x| !x.is_nan()).reduce(|a, b| if b > a { b } else { a }).unwrap_or(<$t>::NAN);
        agree("reduce_min_axis", || t.reduce_min_axis(a), || want(m, $c.axis, lo).1, same)?;
        agree("reduce_max_axis", || t.reduce_max_axis(a), || want(m, $c.axis, hi).1, same)?;
        agree("reduce_min", || t.reduce_min(), || want(m, None, lo).1, same)?;
        agree("reduce_max", || t.reduce_max(), || want(m, None, hi).1, same)?;
    }};
}

fn named(c: &Case, ctx: &mut Ctx) -> R {
    classify(c, ctx);
    match c.op % 8 {
        0 => sums!(c, i32),
        1 => sums!(c, f32),
        2 => sums!(c, f64),
        3 => sums!(c, u8),
        4 => sums!(c, i128),
        5 => sums!(c, num_complex::Complex<f64>),
        6 => extremes!(c, f32),
        _ => extremes!(c, f64),
    }
    Ok(())
}

fn empty(c: &u32, ctx: &mut Ctx) -> R {
    ctx.nt(true);
    let e = Tensor::<i32>::from(Vec::<i32>::new());
    expect("fold of nothing", &e.fold(*c, |s, _| s + 1), &M::scalar(*c))?;
    expect("fold_axis of nothing", &e.fold_axis(None, *c, |s, _| s + 1), &M::scalar(*c))?;
    expect("fold_axis 0 of nothing", &e.fold_axis(0, *c, |s, _| s + 1), &M::scalar(*c))?;
    rejects(|| "reduce of nothing".to_string(), || e.reduce(|a, b| a + b))?;
    rejects(|| "reduce_axis of nothing".to_string(), || e.reduce_axis(0, |a, b| a + b))
}

fn main() {
    let case = |cap: usize, kinds: &'static [u8]| {
        (ts(mshape(0, 6, cap), kinds), prop::option::weighted(0.8, (0usize..6, any::<bool>())), 0u8..8).prop_map(|(t, axis, op)| Case { t, axis, op })
    };
    vharness::fw::main(Prop {
        id: "C09",
        rule: "a case is a tensor, an axis (none, from either end) and a combining function; non-trivial: more than one element",
        subs: vec![
            sub("empty", 3_000, vharness::empties::empty(), |c, ctx| vharness::empties::check("C09", c, ctx)),
            sub("fold", 60_000, case(1_500, &[IOTA, EXTREME]), fold),
            sub("reduce", 60_000, case(1_500, &[IOTA, EXTREME]), reduce),
            sub("named", 80_000, case(1_500, &[SMALL, MODERATE, IOTA, EXTREME, ROUGH]), named),
            sub("fold_large", 800, case(150_000, &[IOTA]), fold),
            sub("reduce_large", 800, case(150_000, &[IOTA]), reduce),
            sub("named_large", 800, case(150_000, &[SMALL, MODERATE, ROUGH]), named),
            sub("nothing", 100, 0u32..1000, empty),
        ],
    });
}
