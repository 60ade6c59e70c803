//! C19: histograms count every sample once, in the bin whose edges contain it
use essay_tensor::stats::{histogram, histogram2d, Hist2Args, HistArgs};
use vharness::prelude::*;

const EPS: f64 = f32::EPSILON as f64;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Axis1 {
    kind: u8,
    seed: u32,
    /// position and width of the data
    at: i8,
    width: i8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    n: usize,
    bins: usize,
    ax: [Axis1; 2],
    prov: Prov,
    form: u8,
}

fn sample(a: &Axis1, bins: usize, n: usize, i: usize) -> f32 {
    let r = h(a.seed, i);
    let u = (r >> 11) as f64 / (1u64 << 53) as f64;
    let scale = 10f64.powi(a.width as i32 % 12);
    let off = if a.at % 3 == 0 { 0. } else { 10f64.powi(a.at as i32 % 9) * a.at.signum() as f64 };
    match a.kind % 10 {
        // next to the edges of the range and of the bins, by one step of the number format
        8 => {
            let lo = off + (h(a.seed, 1 << 20) % 1000) as f64 / 997. * scale;
            let hi = lo + (1 + h(a.seed, 1 << 21) % 5000) as f64 / 613. * scale;
            let k = match (r >> 4) % 4 { 0 => 0, 1 => bins as u64, _ => (r >> 8) % (bins as u64 + 1) };
            let (lo, hi) = (lo as f32, hi as f32);
            let e = (lo as f64 + (hi as f64 - lo as f64) * k as f64 / bins as f64) as f32;
            let step = |x: f32, up: bool| {
                if x == 0. {
                    return x;
                }
                f32::from_bits(if (x > 0.) == up { x.to_bits() + 1 } else { x.to_bits() - 1 })
            };
            match (r >> 32) % 4 {
                _ if i == 0 => lo,
                _ if i + 1 == n => hi,
                0 => step(e, true).min(hi),
                1 => step(step(e, false), false).max(lo),
                2 => step(e, false).max(lo),
                _ => e.min(hi).max(lo),
            }
        }
        // multiples of a power of two, with both ends present: exact edges
        0 | 1 => {
            let w = bins as f64 * 2f64.powi((a.width as i32).rem_euclid(3));
            let base = (a.at / 2) as f64;
            (base + if i == 0 { 0. } else if i + 1 == n { w } else { ((r >> 8) % (w as u64 + 1)) as f64 }) as f32
        }
        2 => (off + u * scale) as f32,
        3 => (off + (u * 8.).floor() * scale) as f32,
        4 => off as f32,
        5 => (off + u * u * u * scale) as f32,
        // samples on the edges of an uneven division
        6 => (off + ((u * (bins + 1) as f64).floor() / bins as f64) * scale) as f32,
        _ => if r % 5 == 0 { (off - scale) as f32 } else { (off + u * scale) as f32 },
    }
}

struct Range {
    min: f64,
    max: f64,
    tol: f64,
    bins: usize,
    exact: bool,
}

impl Range {
    fn new(v: &[f32], bins: usize) -> Range {
        let min = v.iter().cloned().fold(f32::INFINITY, f32::min) as f64;
        let max = v.iter().cloned().fold(f32::NEG_INFINITY, f32::max) as f64;
        let w = (max - min) / bins as f64;
        // all quantities are small multiples of the same power of two: nothing is rounded
        let exact = w.fract() == 0. && w > 0. && max.abs() < 1e6 && min.abs() < 1e6 && v.iter().all(|x| x.fract() == 0.) && (w as u64).is_power_of_two();
        Range { min, max, tol: 8. * EPS * min.abs().max(max.abs()).max(max - min), bins, exact }
    }
    fn edge(&self, k: usize) -> f64 {
        self.min + (self.max - self.min) * k as f64 / self.bins as f64
    }
    /// the bins that may count this sample
    fn bins_of(&self, x: f32) -> (usize, usize) {
        let x = x as f64;
        let last = self.bins - 1;
        if self.min == self.max {
            return (0, last);
        }
        if x == self.max {
            return (last, last);
        }
        let w = (self.max - self.min) / self.bins as f64;
        if self.exact {
            let k = (((x - self.min) / w).floor() as usize).min(last);
            return (k, k);
        }
        // position in bins, uncertain by the rounding of the sample's distance and of the width
        let e = self.tol / w + 8. * EPS * self.bins as f64;
        let p = (x - self.min) / w;
        (((p - e).floor().max(0.) as usize).min(last), ((p + e).floor().max(0.) as usize).min(last))
    }
    fn check_edges(&self, what: &str, t: &Tensor) -> R {
        ensure!(t.shape().as_vec() == [self.bins + 1], "{}: edges of shape {:?} for {} bins", what, t.shape().as_vec(), self.bins);
        for (k, x) in t.as_slice().iter().enumerate() {
            let want = self.edge(k);
            ensure!((*x as f64 - want).abs() <= self.tol, "{}: edge {} is {:?}, expected {:?}", what, k, x, want);
        }
        Ok(())
    }
}

/// can the samples be assigned to bins so that every bin gets its count?
fn assignable(counts: &[f64], iv: &[(usize, usize)]) -> Result<(), String> {
    let mut by_lo: Vec<(usize, usize)> = iv.to_vec();
    by_lo.sort();
    let mut heap = std::collections::BinaryHeap::new();
    let mut next = 0;
    for (k, c) in counts.iter().enumerate() {
        while next < by_lo.len() && by_lo[next].0 <= k {
            heap.push(std::cmp::Reverse(by_lo[next].1));
            next += 1;
        }
        for got in 0..*c as usize {
            match heap.pop() {
                None => return Err(format!("bin {} counts {}, but only {} samples can be in it", k, c, got)),
                Some(std::cmp::Reverse(hi)) if hi < k => return Err(format!("a sample that belongs to a bin up to {} is missing there", hi)),
                _ => {}
            }
        }
        if let Some(std::cmp::Reverse(hi)) = heap.peek() {
            if *hi <= k {
                return Err(format!("bin {} counts {}, but more samples belong there", k, c));
            }
        }
    }
    Ok(())
}

fn note(ctx: &mut Ctx, r: &Range, n: usize, bins: usize) {
    ctx.label_if(r.exact, "exact edges");
    ctx.label_if(r.min == r.max, "constant data");
    ctx.label_if(r.min != r.max && !r.exact, "rounded edges");
    ctx.label_if(bins == 1, "one bin");
    ctx.label_if(n < bins, "fewer samples than bins");
}

fn one(c: &Case, ctx: &mut Ctx) -> R {
    let v: Vec<f32> = (0..c.n).map(|i| sample(&c.ax[0], c.bins, c.n, i)).collect();
    let m = M::new(vec![c.n], v.clone());
    let (t, _keep) = place_or_fresh(&m, &c.prov, 1);
    let bins = if c.form % 5 == 0 { 10 } else { c.bins };
    let r = Range::new(&v, bins);
    ctx.nt(c.n > 1 && r.min != r.max && bins > 1);
    note(ctx, &r, c.n, bins);
    let what = format!("histogram of {} samples in [{:?}, {:?}], {} bins", c.n, r.min, r.max, bins);
    let (counts, edges) = accepts(|| what.clone(), || match c.form % 5 {
        0 if c.form >= 128 => histogram(&t, HistArgs::new()),
        0 => histogram(&t, ()),
        1 => histogram(&t, bins),
        2 => histogram(t.clone(), HistArgs::new().n_bins(bins)),
        3 => histogram(v.clone(), HistArgs::default().n_bins(bins)),
        _ => histogram(v.as_slice(), bins),
    })?;
    ensure!(counts.shape().as_vec() == [bins], "{}: counts of shape {:?}", what, counts.shape().as_vec());
    r.check_edges(&what, &edges)?;
    let cs: Vec<f64> = counts.as_slice().iter().map(|x| *x as f64).collect();
    ensure!(cs.iter().all(|x| *x >= 0. && x.fract() == 0.), "{}: counts {:?}", what, cs);
    ensure!(cs.iter().sum::<f64>() == c.n as f64, "{}: the counts {:?} do not sum to the number of samples", what, cs);
    let iv: Vec<_> = v.iter().map(|x| r.bins_of(*x)).collect();
    assignable(&cs, &iv).map_err(|e| format!("{}: {}", what, e))
}

fn two(c: &Case, ctx: &mut Ctx) -> R {
    let data: Vec<f32> = (0..2 * c.n).map(|i| sample(&c.ax[i % 2], c.bins, c.n, i / 2)).collect();
    let m = M::new(vec![c.n, 2], data.clone());
    let (t, _keep) = place_or_fresh(&m, &c.prov, 1);
    let bins = if c.form % 4 == 0 { 10 } else { c.bins };
    let xs: Vec<f32> = data.iter().step_by(2).cloned().collect();
    let ys: Vec<f32> = data.iter().skip(1).step_by(2).cloned().collect();
    let (rx, ry) = (Range::new(&xs, bins), Range::new(&ys, bins));
    ctx.nt(c.n > 1 && bins > 1 && rx.min != rx.max);
    note(ctx, &rx, c.n, bins);
    let what = format!("histogram2d of {} samples in [{:?}, {:?}] x [{:?}, {:?}], {} bins", c.n, rx.min, rx.max, ry.min, ry.max, bins);
    let (counts, ex, ey) = accepts(|| what.clone(), || match c.form % 4 {
        0 => histogram2d(&t, ()),
        1 => histogram2d(&t, bins),
        2 => histogram2d(t.clone(), Hist2Args::new().n_bins(bins)),
        _ => histogram2d(&t, Hist2Args::default().n_bins(bins)),
    })?;
    ensure!(counts.shape().as_vec() == [bins, bins], "{}: counts of shape {:?}", what, counts.shape().as_vec());
    rx.check_edges(&format!("{}, first axis", what), &ex)?;
    ry.check_edges(&format!("{}, second axis", what), &ey)?;
    let cs: Vec<f64> = counts.as_slice().iter().map(|x| *x as f64).collect();
    ensure!(cs.iter().all(|x| *x >= 0. && x.fract() == 0.), "{}: counts {:?}", what, cs);
    ensure!(cs.iter().sum::<f64>() == c.n as f64, "{}: the counts do not sum to the number of samples", what);
    let ix: Vec<_> = xs.iter().map(|x| rx.bins_of(*x)).collect();
    let iy: Vec<_> = ys.iter().map(|y| ry.bins_of(*y)).collect();
    let cols: Vec<f64> = (0..bins).map(|k| (0..bins).map(|j| cs[j * bins + k]).sum()).collect();
    let rows: Vec<f64> = (0..bins).map(|j| cs[j * bins..(j + 1) * bins].iter().sum()).collect();
    assignable(&cols, &ix).map_err(|e| format!("{}: first coordinate: {}", what, e))?;
    assignable(&rows, &iy).map_err(|e| format!("{}: second coordinate: {}", what, e))?;
    // cells: at least the samples that can be nowhere else, at most those that can be there
    let (mut must, mut may) = (vec![0f64; bins * bins], vec![0f64; bins * bins]);
    for (x, y) in ix.iter().zip(&iy) {
        if x.0 == x.1 && y.0 == y.1 {
            must[y.0 * bins + x.0] += 1.;
        }
        for j in y.0..=y.1 {
            for k in x.0..=x.1 {
                may[j * bins + k] += 1.;
            }
        }
    }
    for i in 0..bins * bins {
        ensure!(must[i] <= cs[i] && cs[i] <= may[i], "{}: row {} column {} counts {}, expected {} to {}", what, i / bins, i % bins, cs[i], must[i], may[i]);
    }
    Ok(())
}

/// more samples in one bin than f32 can count one by one
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    extra: usize,
    heavy: usize,
    bins: usize,
    two: bool,
}

fn huge(c: &Huge, ctx: &mut Ctx) -> R {
    ctx.nt(true);
    let n = (1usize << 24) + c.extra;
    // integers 0..=bins, so that every edge is exact; all but a few samples in bin `heavy`
    let heavy = c.heavy % c.bins;
    let value = |i: usize| if i % 40_000 == 7 { (i / 40_000) % (c.bins + 1) } else { heavy };
    let mut want = vec![0usize; c.bins];
    let mut v: Vec<f32> = Vec::with_capacity(if c.two { 2 * n } else { n });
    for i in 0..n {
        let x = value(i);
        want[x.min(c.bins - 1)] += 1;
        v.push(x as f32);
        if c.two {
            v.push(if i % 50_000 == 3 { 1. } else { 0. });
        }
    }
    let what = format!("{} samples, {} bins, most in bin {}", n, c.bins, heavy);
    if !c.two {
        let (counts, _) = accepts(|| what.clone(), || histogram(v, c.bins))?;
        for k in 0..c.bins {
            ensure!(counts[k] == want[k] as f32, "{}: bin {} counts {:?}, expected {}", what, k, counts[k], want[k]);
        }
    } else {
        let (counts, _, _) = accepts(|| what.clone(), || histogram2d(Tensor::from(v).reshape([n, 2]), c.bins))?;
        let total: f64 = counts.iter().map(|x| *x as f64).sum();
        ensure!((total - n as f64).abs() <= 4., "{}: the counts sum to {}", what, total);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    t: TS,
    bins: usize,
}

fn refused(c: &Bad, ctx: &mut Ctx) -> R {
    ctx.nt(true);
    let b = c.t.build::<f32>();
    let s = &b.m.shape;
    if s.len() != 1 {
        ctx.label("wrong rank");
        rejects(|| format!("histogram of {:?}", s), || histogram(&b.t, c.bins))?;
    } else {
        rejects(|| "histogram with no bins".to_string(), || histogram(&b.t, 0))?;
        rejects(|| "HistArgs with no bins".to_string(), || histogram(&b.t, HistArgs::new().n_bins(0)))?;
    }
    if s.len() != 2 || s[1] != 2 {
        ctx.label("wrong rank or width in two dimensions");
        rejects(|| format!("histogram2d of {:?}", s), || histogram2d(&b.t, c.bins))?;
    } else {
        rejects(|| "histogram2d with no bins".to_string(), || histogram2d(&b.t, 0))?;
        rejects(|| "Hist2Args with no bins".to_string(), || histogram2d(&b.t, Hist2Args::new().n_bins(0)))?;
    }
    Ok(())
}

fn main() {
    let ax = || (any::<u8>(), 0u32..1_000_000, -12i8..12, -12i8..12).prop_map(|(kind, seed, at, width)| Axis1 { kind, seed, at, width });
    let bins = |top: usize| prop_oneof![1 => Just(1usize), 6 => 2usize..=12, 2 => 1usize..=top];
    let case = |n: BoxedStrategy<usize>, top: usize| (n, bins(top), ax(), ax(), prov(), any::<u8>()).prop_map(|(n, bins, a, b, prov, form)| Case { n, bins, ax: [a, b], prov, form });
    let n = || prop_oneof![1 => Just(1usize), 4 => 2usize..=8, 6 => 2usize..=60].boxed();
    vharness::fw::main(Prop {
        id: "C19",
        rule: "a case is a set of samples (kind, position and width of the data) and a bin count; non-trivial: samples that are not all equal and at least two bins",
        subs: vec![
            sub("histogram", 60_000, case(n(), 60), one),
            sub("histogram2d", 40_000, case(n(), 20), two),
            sub("refused", 4_000, (ts(prop_oneof![2 => sshape(0, 4, 40), 1 => (1usize..9).prop_map(|n| vec![n, 2]), 1 => (1usize..9).prop_map(|n| vec![2, n])].boxed(), &[MODERATE, SMALL]), 1usize..20).prop_map(|(t, bins)| Bad { t, bins }), refused),
            sub("histogram_large", 200, case((1usize..20_000).boxed(), 2_000), one),
            sub("huge", 4, (1usize..100_000, 0usize..6, 2usize..=6, any::<bool>()).prop_map(|(extra, heavy, bins, two)| Huge { extra, heavy, bins, two }), huge),
            sub("histogram_fine", 100, (case((1usize..3_000).boxed(), 2), 2_000usize..150_000).prop_map(|(mut c, b)| { c.bins = b; c.form |= 1; c }), one),
            sub("histogram2d_fine", 60, (case((1usize..3_000).boxed(), 2), 100usize..600).prop_map(|(mut c, b)| { c.bins = b; c.form |= 1; c }), two),
            sub("histogram2d_large", 100, case((1usize..10_000).boxed(), 100), two),
        ],
    });
}
