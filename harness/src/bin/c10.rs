//! C10: mean, deviation, variance, hypotenuse and normalisation match their definitions
use vharness::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    t: TS,
    axis: Option<(usize, bool)>,
    /// values are scale * x + shift
    scale: f32,
    shift: f32,
    /// zeros with a few large values, so that one element left out shows in long inputs
    spike: Option<u32>,
}

const EPS: f64 = f32::EPSILON as f64;

struct Stat {
    mean: f64,
    var: f64,
    abs: f64,
    n: f64,
    meansq: f64,
}

fn stat(g: &[f32]) -> Stat {
    let n = g.len() as f64;
    let mean = g.iter().map(|x| *x as f64).sum::<f64>() / n;
    let abs = g.iter().map(|x| x.abs() as f64).sum::<f64>() / n;
    let var = g.iter().map(|x| (*x as f64 - mean).powi(2)).sum::<f64>() / n;
    let meansq = g.iter().map(|x| (*x as f64).powi(2)).sum::<f64>() / n;
    Stat { mean, var, abs, n, meansq }
}

fn mean_tol(s: &Stat) -> f64 {
    (s.n + 2.) * EPS * s.abs + 1e-37
}
fn var_tol(s: &Stat) -> f64 {
    let k = (s.n + 4.) * EPS;
    4. * k * (s.var * s.meansq).sqrt() + 4. * k * k * s.meansq + 4. * k * s.var + 1e-37
}

fn groups(m: &M<f32>, axis: Option<(usize, bool)>) -> (Option<isize>, Vec<usize>, Vec<Vec<f32>>) {
    match axis {
        Some((raw, neg)) if m.rank() > 0 => {
            let (a, k) = axis_of(raw, neg, m.rank());
            let (rest, g) = m.groups(k);
            (Some(a), rest, g)
        }
        _ => (None, vec![], vec![m.data.clone()]),
    }
}

fn build(c: &Case) -> (Tensor<f32>, M<f32>, Vec<Tensor<f32>>) {
    let mut m = c.t.model::<f32>().map(|x| x * c.scale + c.shift);
    if let Some(k) = c.spike {
        let n = m.data.len();
        m.data.fill(0.);
        for j in 0..1 + k as usize % 4 {
            let r = h(k, j) as usize;
            let at = match r % 6 {
                0 => n - 1,
                1 => 0,
                2 => (1 << (r / 8 % 18)) + r / 1024 % 3,
                3 => (r / 8 % 40) * [64, 1000, 1024, 4096][r / 1024 % 4] + r / 8192 % 3,
                _ => r / 8,
            };
            m.data[at.max(1) % n] = 100. + (r % 900) as f32;
        }
    }
    let (t, keep) = place_or_fresh(&m, &c.t.prov, c.t.v.seed);
    (t, m, keep)
}

fn close(what: &str, t: &Tensor<f32>, shape: &[usize], st: &[Stat], want: impl Fn(&Stat) -> (f64, f64)) -> R {
    let m = M::new(shape.to_vec(), st.iter().map(|s| want(s)).collect::<Vec<_>>());
    expect_by(what, t, &m, |x, (w, tol)| (*x as f64 - w).abs() <= *tol)
}

fn stats(c: &Case, ctx: &mut Ctx) -> R {
    let (t, m, _keep) = build(c);
    let n = m.data.len();
    ctx.nt(n > 1);
    let (a, shape, g) = groups(&m, c.axis);
    let st: Vec<Stat> = g.iter().map(|g| stat(g)).collect();
    ctx.label(match a { None => "whole tensor", Some(_) => "along an axis" });
    ctx.label_if(g[0].len() == 1, "groups of one element");
    ctx.label_if(c.shift.abs() > 500., "mean far from zero");
    ctx.label_if(c.spike.is_some(), "a few large values among zeros");
    let mean = |s: &Stat| (s.mean, mean_tol(s));
    let var = |s: &Stat| if s.n == 1. { (0., 0.) } else { (s.var, var_tol(s)) };
    let std = |s: &Stat| {
        if s.n == 1. {
            return (0., 0.);
        }
        let e = var_tol(s);
        let sd = s.var.sqrt();
        // how far the root moves when the variance moves by e
        let up = (s.var + e).sqrt() - sd;
        let down = sd - (s.var - e).max(0.).sqrt();
        (sd, up.max(down) + 4. * EPS * sd)
    };
    let go = |f: &dyn Fn() -> Tensor<f32>, w: &str| accepts(|| format!("{} {:?} of {:?}", w, a, m.shape), || f());
    close("reduce_mean_axis", &go(&|| t.reduce_mean_axis(a), "mean")?, &shape, &st, mean)?;
    close("reduce_variance_axis", &go(&|| t.reduce_variance_axis(a), "variance")?, &shape, &st, var)?;
    close("reduce_std_axis", &go(&|| t.reduce_std_axis(a), "std")?, &shape, &st, std)?;
    let all = [stat(&m.data)];
    close("reduce_mean", &go(&|| t.reduce_mean(), "mean")?, &[], &all, mean)?;
    close("reduce_variance", &go(&|| t.reduce_variance(), "variance")?, &[], &all, var)?;
    close("reduce_std", &go(&|| t.reduce_std(), "std")?, &[], &all, std)?;
    let hyp = |s: &Stat| {
        let h = (s.meansq * s.n).sqrt();
        (h, (s.n + 4.) * EPS * h + 1e-22)
    };
    close("reduce_hypot", &go(&|| t.reduce_hypot(), "hypot")?, &[], &all, hyp)?;
    let d = M::new(m.shape.clone(), m.data.iter().map(|x| *x as f64).collect());
    let (td, _k) = place_or_fresh(&d, &c.t.prov, c.t.v.seed);
    let h = (all[0].meansq * all[0].n).sqrt();
    expect_by("reduce_hypot of f64", &td.reduce_hypot(), &M::scalar(h), |x, w| (x - w).abs() <= (n as f64 + 4.) * f64::EPSILON * w * 2. + 1e-150)
}

/// not-a-numbers and infinities: what their group comes to, and that no other group changes
fn special(c: &Case, ctx: &mut Ctx) -> R {
    let mut m = c.t.model::<f32>().map(|x| x * c.scale + c.shift);
    let n = m.data.len();
    let k = c.spike.unwrap_or(0);
    let what = [f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY];
    for j in 0..1 + k as usize % 3 {
        let r = h(k, j) as usize;
        m.data[match r % 4 { 0 => 0, 1 => n - 1, _ => r / 8 % n }] = what[match k % 5 { 0 => 2, 1 => 3, 2 => r / 4096 % 4, _ => 0 }];
    }
    ctx.nt(n > 1);
    let (t, _keep) = place_or_fresh(&m, &c.t.prov, c.t.v.seed);
    let (a, shape, g) = groups(&m, c.axis);
    ctx.label(match a { None => "whole tensor", Some(_) => "along an axis" });
    ctx.label_if(m.data.iter().any(|x| x.is_nan()), "not a number");
    ctx.label_if(m.data.iter().any(|x| x.is_infinite()), "infinite");
    ctx.label_if(g.iter().any(|g| g.iter().all(|x| x.is_finite())), "finite groups beside");
    let go = |f: &dyn Fn() -> Tensor<f32>, w: &str| accepts(|| format!("{} {:?} of {:?}", w, a, m.shape), || f());
    let mean = |g: &Vec<f32>, x: f32| {
        let w = g.iter().map(|x| *x as f64).sum::<f64>();
        if w.is_finite() {
            let s = stat(g);
            (x as f64 - s.mean).abs() <= mean_tol(&s)
        } else {
            (w.is_nan() && x.is_nan()) || x as f64 == w
        }
    };
    let spread = |root: bool| move |g: &Vec<f32>, x: f32| {
        let s = stat(g);
        match g.len() {
            1 => x == 0. || !g[0].is_finite(),
            _ if s.meansq.is_finite() => {
                let (v, e) = (s.var, var_tol(&s));
                let x = x as f64;
                if !root { (x - v).abs() <= e } else {
                    let (lo, hi) = ((v - e).max(0.).sqrt(), (v + e).sqrt());
                    x >= lo * (1. - 4. * EPS) && x <= hi * (1. + 4. * EPS)
                }
            }
            // infinite elements have no variance: not a number, or infinite
            _ if g.iter().any(|x| x.is_nan()) => x.is_nan(),
            _ => !x.is_finite(),
        }
    };
    let whole = M::scalar(m.data.clone());
    let by = M::new(shape, g);
    expect_by("reduce_mean_axis", &go(&|| t.reduce_mean_axis(a), "mean")?, &by, |x, g| mean(g, *x))?;
    expect_by("reduce_mean", &go(&|| t.reduce_mean(), "mean")?, &whole, |x, g| mean(g, *x))?;
    expect_by("reduce_variance_axis", &go(&|| t.reduce_variance_axis(a), "variance")?, &by, |x, g| spread(false)(g, *x))?;
    expect_by("reduce_variance", &go(&|| t.reduce_variance(), "variance")?, &whole, |x, g| spread(false)(g, *x))?;
    expect_by("reduce_std_axis", &go(&|| t.reduce_std_axis(a), "std")?, &by, |x, g| spread(true)(g, *x))?;
    expect_by("reduce_std", &go(&|| t.reduce_std(), "std")?, &whole, |x, g| spread(true)(g, *x))?;
    expect_by("reduce_hypot", &go(&|| t.reduce_hypot(), "hypot")?, &whole, |x, g| {
        if g.iter().any(|x| x.is_nan()) { x.is_nan() || (g.iter().any(|x| x.is_infinite()) && *x == f32::INFINITY) } else { *x == f32::INFINITY }
    })
}

fn unit(c: &Case, ctx: &mut Ctx) -> R {
    let (t, m, _keep) = build(c);
    let lo = m.data.iter().copied().fold(f32::INFINITY, f32::min) as f64;
    let hi = m.data.iter().copied().fold(f32::NEG_INFINITY, f32::max) as f64;
    let r = accepts(|| format!("normalize_unit of {:?}", m.shape), || t.normalize_unit())?;
    if lo == hi {
        ctx.label("constant");
        ensure!(r.shape().as_vec() == m.shape, "shape {:?}", r.shape());
        return Ok(());
    }
    ctx.nt(true);
    let w = m.map(|x| (*x as f64 - lo) / (hi - lo));
    expect_by("normalize_unit", &r, &w, |x, w| (*x as f64 - w).abs() <= 4. * EPS)?;
    for (i, x) in m.data.iter().enumerate() {
        ensure!(*x as f64 != lo || r[i] == 0., "the smallest element becomes {}", r[i]);
        ensure!(*x as f64 != hi || r[i] == 1., "the largest element becomes {}", r[i]);
    }
    let md = m.map(|x| *x as f64);
    let (td, _k) = place_or_fresh(&md, &c.t.prov, c.t.v.seed);
    expect_by("normalize_unit of f64", &td.normalize_unit(), &w, |x, w| (x - w).abs() <= 8. * f64::EPSILON)
}

fn general(c: &Case, ctx: &mut Ctx) -> R {
    let b = c.t.build::<u32>();
    let (t, m) = (&b.t, &b.m);
    ctx.nt(m.data.len() > 1);
    let init = 5u64;
    let step = |s: u64, v: &u32| s.wrapping_mul(1_000_003).wrapping_add(*v as u64 + 1);
    let (a, k) = match c.axis {
        Some((raw, neg)) if m.rank() > 0 => {
            let (a, k) = axis_of(raw, neg, m.rank());
            (Some(a), Some(k))
        }
        _ => (None, None),
    };
    ctx.label(match k { None => "whole tensor", Some(k) if k + 1 == m.rank() => "innermost axis", Some(0) => "outermost axis", _ => "middle axis" });
    let state_at = |idx: &[usize]| -> (u64, u8) {
        let g: Vec<u32> = match k {
            None => m.data.clone(),
            Some(k) => (0..m.shape[k]).map(|j| { let mut i = idx.to_vec(); i[k] = j; *m.at(&i) }).collect(),
        };
        (g.iter().fold(init, step).wrapping_mul(3), 1)
    };
    let memo: std::collections::HashMap<Vec<usize>, (u64, u8)> = Default::default();
    let memo = std::cell::RefCell::new(memo);
    let w = M::from_fn(m.shape.clone(), |idx| {
        let mut key = idx.to_vec();
        match k { None => key.clear(), Some(k) => { key.remove(k); } }
        let s = *memo.borrow_mut().entry(key).or_insert_with(|| state_at(idx));
        (s.0 as i64, *m.at(idx) as f64)
    });
    let r = accepts(|| format!("normalize {:?} of {:?}", a, m.shape), || {
        t.normalize(a, init, step, |s| (s.wrapping_mul(3), 1u8), |s: &(u64, u8), v| (s.0 as i64, *v as f64))
    })?;
    expect(&format!("normalize {:?}", a), &r, &w)?;
    Ok(())
}

fn main() {
    let case = |cap: usize, kinds: &'static [u8]| {
        (ts(mshape(0, 6, cap), kinds), prop::option::weighted(0.8, (0usize..6, any::<bool>())),
            prop_oneof![4 => Just(1f32), 1 => Just(0.001f32), 1 => Just(300f32), 1 => Just(0.37f32), 1 => Just(1e12f32), 1 => Just(1e-12f32)],
            prop_oneof![4 => Just(0f32), 1 => Just(1000f32), 1 => Just(-20000f32), 1 => Just(3.3f32)], prop::option::of(0u32..1_000_000))
            .prop_map(move |(t, axis, scale, shift, spike)| Case { t, axis, scale, shift, spike: spike.filter(|k| cap > 1000 || k % 10 == 0) })
    };
    vharness::fw::main(Prop {
        id: "C10",
        rule: "a case is a float tensor (several magnitudes and offsets) and an axis; non-trivial: more than one element (normalize_unit: not constant)",
        subs: vec![
            sub("stats", 60_000, case(800, &[MODERATE, SMALL, CONST, IOTA, ROUGH]), stats),
            sub("stats_large", 600, case(150_000, &[MODERATE, SMALL, ROUGH]), stats),
            sub("special", 10_000, case(400, &[MODERATE, SMALL, IOTA]).prop_flat_map(|c| (Just(c), 0u32..1_000_000).prop_map(|(mut c, k)| {
                c.spike = Some(k);
                c.scale = c.scale.clamp(0.001, 300.);
                c
            })), special),
            sub("unit", 40_000, case(800, &[MODERATE, SMALL, CONST, IOTA, ROUGH]), unit),
            sub("unit_large", 600, case(150_000, &[MODERATE, ROUGH]), unit),
            sub("general_large", 300, case(100_000, &[IOTA, EXTREME]), general),
            sub("general", 40_000, case(600, &[IOTA, EXTREME]), general),
        ],
    });
}
