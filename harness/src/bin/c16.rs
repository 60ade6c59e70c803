//! C16: ranges and linear, logarithmic and geometric spaces have the right points
use essay_tensor::init;
use vharness::prelude::*;

const EPS: f64 = f32::EPSILON as f64;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Range {
    start: f32,
    step: f32,
    /// about how many points
    n: usize,
    /// how far into the last step the end lies, in sixteenths
    part: u8,
}

/// exact arithmetic: every point is representable and so is every sum
fn exact(c: &Range, ctx: &mut Ctx) -> R {
    let end = c.start + c.step * (c.n as f32) + c.step * (c.part as f32 / 16.);
    let want: Vec<f32> = (0..c.n + (c.part > 0) as usize).map(|k| c.start + k as f32 * c.step).collect();
    ctx.nt(want.len() > 1);
    ctx.label(if c.step > 0. { "upwards" } else { "downwards" });
    ctx.label_if(c.part == 0, "end on a point");
    ctx.label_if(want.is_empty(), "no points");
    let what = format!("arange({}, {}, {})", c.start, end, c.step);
    let want = M::new(vec![want.len()], want);
    expect(&what, &accepts(|| what.clone(), || init::arange(c.start, end, c.step))?, &want)?;
    expect(&what, &accepts(|| what.clone(), || Tensor::arange(c.start, end, c.step))?, &want)?;
    if want.data.len() > 0 {
        rejects(|| format!("arange({}, {}, {})", c.start, end, -c.step), || init::arange(c.start, end, -c.step))?;
    }
    if end != c.start {
        rejects(|| format!("arange({}, {}, 0)", c.start, end), || init::arange(c.start, end, 0.))?;
        rejects(|| format!("arange({}, {}, -0)", c.start, end), || init::arange(c.start, end, -0.))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Free {
    start: f32,
    end: f32,
    step: f32,
}

/// any values, up to rounding
fn free(c: &Free, ctx: &mut Ctx) -> R {
    let (start, end, step) = (c.start as f64, c.end as f64, c.step as f64);
    let what = format!("arange({:?}, {:?}, {:?})", c.start, c.end, c.step);
    let forward = (c.start <= c.end && c.step > 0.) || (c.end <= c.start && c.step < 0.);
    if !forward {
        ctx.label("wrong direction, refused");
        return rejects(|| what.clone(), || init::arange(c.start, c.end, c.step));
    }
    ctx.label(if c.step > 0. { "upwards" } else { "downwards" });
    // the step must be able to advance the sum
    let top = c.start.abs().max(c.end.abs());
    let n = ((end - start) / step).abs();
    if (step.abs() as f64) < 4. * EPS * top as f64 {
        // finishing is all that is claimed: either way
        ctx.label("step lost in rounding");
        if n < 1e6 {
            let _ = attempt(|| init::arange(c.start, c.end, c.step));
        }
        return Ok(());
    }
    ctx.nt(n > 1.);
    let t = accepts(|| what.clone(), || init::arange(c.start, c.end, c.step))?;
    ensure!(t.rank() == 1, "{}: rank {}", what, t.rank());
    let v = t.as_slice();
    // k additions, each within half a unit in the last place of at most `top + |step|`
    let tol = |k: f64| (k + 4.) * EPS * (top as f64 + step.abs());
    ensure!(v.is_empty() == (c.start == c.end), "{}: {} points", what, v.len());
    for (k, x) in v.iter().enumerate() {
        let want = start + k as f64 * step;
        ensure!((*x as f64 - want).abs() <= tol(k as f64), "{}: point {} is {:?}, expected about {:?}", what, k, x, want);
        ensure!(if step > 0. { *x < c.end } else { *x > c.end }, "{}: point {} is {:?}, not before the end", what, k, x);
    }
    if let Some(last) = v.last() {
        let next = *last as f64 + step;
        let missing = if step > 0. { end - next } else { next - end };
        ensure!(missing <= tol(v.len() as f64), "{}: stops at {:?}, {} points, too early", what, last, v.len());
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Space {
    shape: Vec<usize>,
    /// start and extent of each element, by seed
    seed: u32,
    kind: u8,
    len: usize,
    base: Option<f32>,
    prov: (Prov, Prov),
    form: u8,
    /// make one element's bounds wrong, or the shapes
    wrong: Option<(usize, u8)>,
}

fn unit(seed: u32, i: usize) -> f64 {
    (h(seed, i) >> 11) as f64 / (1u64 << 53) as f64
}

fn lin_bounds(kind: u8, seed: u32, i: usize) -> (f32, f32) {
    let (a, b, s) = (unit(seed, 4 * i), unit(seed, 4 * i + 1), unit(seed, 4 * i + 2));
    match kind % 6 {
        0 => ((a * 20.).floor() as f32 - 10., (a * 20.).floor() as f32 - 10. + (b * 30.).floor() as f32),
        1 => (((a - 0.5) * 2.) as f32, ((a - 0.5) * 2. + b) as f32),
        2 => (((a - 0.5) * 2e6) as f32, ((a - 0.5) * 2e6 + b * 10f64.powf(s * 8.)) as f32),
        3 => ((a * 1e4) as f32, (a * 1e4) as f32),
        4 => ((-a * 10f64.powf(s * 37.)) as f32, (b * 10f64.powf(s * 37.)) as f32),
        _ => ((a * 10f64.powf(-s * 30.)) as f32, (a * 10f64.powf(-s * 30.) + b) as f32),
    }
}

struct Bounds {
    s: M<f32>,
    e: M<f32>,
}

fn bounds(c: &Space, f: impl Fn(usize) -> (f32, f32)) -> Bounds {
    let n = size(&c.shape);
    let b: Vec<(f32, f32)> = (0..n).map(|i| { let (a, b) = f(i); if a <= b { (a, b) } else { (b, a) } }).collect();
    Bounds {
        s: M::new(c.shape.clone(), b.iter().map(|x| x.0).collect()),
        e: M::new(c.shape.clone(), b.iter().map(|x| x.1).collect()),
    }
}

type Build<'a> = &'a dyn Fn(&Tensor, &Tensor, usize) -> Tensor;

/// `point(start, end, fraction)` gives the value and the tolerated error
fn space(c: &Space, ctx: &mut Ctx, name: &str, mut b: Bounds, forms: &[Build], scalars: &dyn Fn(f32, f32, usize) -> Tensor, point: &dyn Fn(f64, f64, f64) -> (f64, f64), may_drop: bool) -> R {
    let n = size(&c.shape);
    ctx.label(&format!("rank {}", c.shape.len()));
    let mut refuse = false;
    if let Some((i, how)) = c.wrong {
        let i = i % n;
        match how % 3 {
            0 if c.shape.len() > 1 && c.shape.iter().any(|d| *d != c.shape[0]) => {
                let mut s = c.shape.clone();
                s.reverse();
                refuse = s != c.shape;
                b.e = b.e.reshape(s);
            }
            1 if c.shape.len() < 6 => {
                let mut s = c.shape.clone();
                s.insert(i % (s.len() + 1), 1);
                b.e = b.e.reshape(s);
                refuse = true;
            }
            _ => {
                // this element's bounds the wrong way round, well apart
                if c.len > 0 {
                    let (s, e) = (b.s.data[i], b.e.data[i]);
                    let far = if e.abs() < 1. { e + 1. } else { e + e.abs() };
                    let _ = s;
                    b.s.data[i] = far;
                    b.e.data[i] = e;
                    refuse = true;
                }
            }
        }
    }
    if c.shape.len() == 6 {
        refuse = true;
    }
    let (mut ts, _k1) = place_or_fresh(&b.s, &c.prov.0, c.seed);
    let (mut te, _k2) = place_or_fresh(&b.e, &c.prov.1, c.seed);
    if let Some(mut t) = siblings(&[&b.s, &b.e], c.seed) {
        (te, ts) = (t.pop().unwrap(), t.pop().unwrap());
    }
    let what = format!("{} of {:?} to {:?}, {} points", name, short(&b.s), short(&b.e), c.len);
    let go = forms[c.form as usize % forms.len()];
    if refuse {
        if c.len == 0 || (c.shape.len() == 6 && n == 1 && may_drop) {
            return Ok(());
        }
        ctx.label("refused");
        return rejects(|| what.clone(), || go(&ts, &te, c.len));
    }
    ctx.nt(c.len > 1);
    ctx.label(match c.len { 0 => "no points", 1 => "one point", 2 => "two points", _ => "many points" });
    if c.len == 0 {
        if c.shape.is_empty() {
            let t = accepts(|| what.clone(), || go(&ts, &te, 0))?;
            ensure!(t.size() == 0 && t.shape().as_vec() == [0], "{}: shape {:?}", what, t.shape().as_vec());
        }
        return Ok(());
    }
    let t = accepts(|| what.clone(), || go(&ts, &te, c.len))?;
    let mut shape = c.shape.clone();
    shape.insert(0, c.len);
    let got = t.shape().as_vec();
    if !(may_drop && n == 1 && got == [c.len]) {
        ensure!(got == shape, "{}: shape {:?}, expected {:?}", what, got, shape);
    }
    let v = t.as_slice();
    ensure!(v.len() == n * c.len, "{}: {} elements", what, v.len());
    for i in 0..n {
        let (s, e) = (b.s.data[i] as f64, b.e.data[i] as f64);
        let mut prev = (f64::NEG_INFINITY, 0.);
        let first = point(s, e, 0.).0;
        let last = point(s, e, 1.).0;
        let up = last >= first;
        for k in 0..c.len {
            let f = if c.len > 1 { k as f64 / (c.len - 1) as f64 } else { 0. };
            let (want, tol) = point(s, e, f);
            let tol = tol + c.len as f64 * 1e-44;
            let x = v[k * n + i] as f64;
            ensure!((x - want).abs() <= tol, "{}: point {} of element {} is {:?}, expected {:?} within {:?}", what, k, i, x, want, tol);
            let x = if up { x } else { -x };
            if k > 0 {
                ensure!(x >= prev.0 - tol - prev.1, "{}: point {} of element {} goes back", what, k, i);
            }
            prev = (x, tol);
        }
    }
    // the same numbers, one element at a time
    let one = accepts(|| format!("{} of plain numbers", name), || scalars(b.s.data[0], b.e.data[0], c.len))?;
    ensure!(one.shape().as_vec() == [c.len], "{} of plain numbers: shape {:?}", name, one.shape().as_vec());
    for k in 0..c.len {
        let (x, y) = (one.as_slice()[k] as f64, v[k * n] as f64);
        let f = if c.len > 1 { k as f64 / (c.len - 1) as f64 } else { 0. };
        let tol = point(b.s.data[0] as f64, b.e.data[0] as f64, f).1;
        ensure!((x - y).abs() <= 2. * tol + 1e-43 * c.len as f64, "{}: point {} is {} alone and {} in a tensor", what, k, x, y);
    }
    Ok(())
}

fn short(m: &M<f32>) -> String {
    format!("{:?} {:?}", m.shape, &m.data[..m.data.len().min(6)])
}

fn linspace(c: &Space, ctx: &mut Ctx) -> R {
    let b = bounds(c, |i| lin_bounds(c.kind, c.seed, i));
    space(c, ctx, "linspace", b,
        &[&|s, e, n| init::linspace(s, e, n), &|s, e, n| s.linspace(e, n), &|s, e, n| init::linspace(s.clone(), e.clone(), n)],
        &|s, e, n| init::linspace(s, e, n),
        &|s, e, f| (s + (e - s) * f, 4. * EPS * s.abs().max(e.abs()).max(e - s)), false)
}

fn logspace(c: &Space, ctx: &mut Ctx) -> R {
    let base = c.base.unwrap_or(10.) as f64;
    let lim = 30. / base.log10().abs().max(0.02);
    let b = bounds(c, |i| {
        let (a, b) = (unit(c.seed, 3 * i), unit(c.seed, 3 * i + 1));
        match c.kind % 3 {
            0 => (((a - 0.5) * lim) as f32, ((b - 0.5) * lim) as f32),
            1 => ((a * 6.).floor().min(lim) as f32 - 3., (b * 6.).floor().min(lim) as f32 - 3.),
            _ => ((a * 0.1) as f32, (a * 0.1 + b * 0.1) as f32),
        }
    });
    ctx.label(match c.base { None => "base 10 by default", Some(b) if b < 1. => "base below one", Some(_) => "given base" });
    let p = |s: f64, e: f64, f: f64| {
        let v = base.powf(s + (e - s) * f);
        (v, v * EPS * (base.ln().abs() * 6. * s.abs().max(e.abs()).max(1.) + 8.))
    };
    match c.base {
        None => space(c, ctx, "logspace", b,
            &[&|s, e, n| init::logspace(s, e, n), &|s, e, n| s.logspace(e, n), &|s, e, n| init::logspace_opt(s, e, n, None)],
            &|s, e, n| init::logspace(s, e, n), &p, false),
        Some(base) => space(c, ctx, "logspace_opt", b,
            &[&|s, e, n| init::logspace_opt(s, e, n, base), &|s, e, n| init::logspace_opt(s, e, n, Some(base))],
            &|s, e, n| init::logspace_opt(s, e, n, base), &p, false),
    }
}

fn geomspace(c: &Space, ctx: &mut Ctx) -> R {
    let b = bounds(c, |i| {
        let (a, b) = (unit(c.seed, 3 * i), unit(c.seed, 3 * i + 1));
        match c.kind % 4 {
            0 => (10f64.powf((a - 0.5) * 60.) as f32, 10f64.powf((b - 0.5) * 60.) as f32),
            1 => ((1. + a * 9.).floor() as f32, (1. + b * 99.).floor() as f32),
            2 => ((1. + a) as f32, (1. + b) as f32),
            _ => ((0.1 + a) as f32, (0.1 + a) as f32),
        }
    });
    space(c, ctx, "geomspace", b,
        &[&|s, e, n| init::geomspace(s, e, n), &|s, e, n| s.geomspace(e, n)],
        &|s, e, n| init::geomspace(s, e, n),
        &|s, e, f| {
            let v = (s.ln() + (e.ln() - s.ln()) * f).exp();
            (v, v * EPS * (6. * s.ln().abs().max(e.ln().abs()).max(1.) + 8.))
        }, true)
}

fn main() {
    let len = |top: usize| prop_oneof![1 => Just(0usize), 2 => Just(1usize), 2 => Just(2usize), 6 => 3usize..=20, 3 => 1usize..=top];
    let scase = |cap: usize, top: usize| {
        (
            prop_oneof![2 => Just(vec![]), 4 => sshape(0, 5, cap), 1 => sshape(0, 6, cap)],
            0u32..100_000,
            any::<u8>(),
            len(top),
            prop::option::weighted(0.7, prop_oneof![Just(2f32), Just(std::f32::consts::E), Just(0.5f32), 1.1f32..20., 0.1f32..0.9]),
            (prov(), prov()),
            any::<u8>(),
            prop::option::weighted(0.2, (0usize..64, any::<u8>())),
        )
            .prop_map(|(shape, seed, kind, len, base, prov, form, wrong)| Space { shape, seed, kind, len, base, prov, form, wrong })
    };
    // few elements and very many points
    let lcase = || {
        (scase(3, 60), prop_oneof![
            3 => (12u32..=17, -2i64..=2).prop_map(|(p, d)| ((1i64 << p) + d) as usize),
            1 => Just(100_000usize),
            2 => 2_000usize..=200_000,
        ])
            .prop_map(|(mut c, len)| {
                c.len = len;
                c
            })
    };
    let ecase = |top: usize| {
        (-64i32..=64, prop_oneof![Just(16i32), 1i32..=64, -64i32..=-1], prop_oneof![4 => 0usize..=12, 1 => 0usize..=top], prop_oneof![1 => Just(0u8), 3 => 0u8..16], 0u8..6)
            .prop_map(|(s, st, n, part, zero)| {
                let step = st as f32 / 16.;
                let start = match zero {
                    0 => 0.,
                    // the end, or the last point, is zero
                    1 => -(n as f32 * step + step * (part as f32 / 16.)),
                    2 => -(n as f32 * step),
                    3 => step * (s as f32),
                    _ => s as f32 / 8.,
                };
                // no negative zero
                Range { start: start + 0., step, n, part }
            })
    };
    let fcase = (-1e4f64..1e4, -6f64..6., -8f64..4., any::<bool>(), prop_oneof![3 => 1f64..3000., 1 => (-9f64..1.).prop_map(|e| 10f64.powf(e))], 0u8..8, any::<bool>())
        .prop_map(|(s, mag, stepmag, neg, count, special, flip)| {
            let start = match special { 0 => 0., 1 => s.round(), _ => (s * 10f64.powf(mag - 4.)) as f32 as f64 };
            let step = 10f64.powf(stepmag) * if neg { -1. } else { 1. };
            let mut end = start + step * count;
            if flip && special > 5 {
                end = start - step * count;
            }
            Free { start: start as f32, end: end as f32, step: step as f32 }
        });
    vharness::fw::main(Prop {
        id: "C16",
        rule: "a case is bounds (of any shape), a step or a number of points and possibly a mistake; non-trivial: at least two points",
        subs: vec![
            sub("arange_exact", 40_000, ecase(2000), exact),
            sub("arange_exact_long", 100, ecase(100_000), exact),
            sub("arange", 40_000, fcase, free),
            sub("linspace", 40_000, scase(24, 60), linspace),
            sub("logspace", 30_000, scase(24, 60), logspace),
            sub("geomspace", 30_000, scase(24, 60), geomspace),
            sub("linspace_large", 150, scase(200, 2_000), linspace),
            sub("logspace_large", 100, scase(200, 2_000), logspace),
            sub("geomspace_large", 100, scase(200, 2_000), geomspace),
            sub("linspace_long", 120, lcase(), linspace),
            sub("logspace_long", 60, lcase(), logspace),
            sub("geomspace_long", 60, lcase(), geomspace),
        ],
    });
}
