//! C18: the windowed spectrum equals the definition for every row
use essay_tensor::signal::rfft_norm;
use vharness::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    lead: Vec<usize>,
    len: usize,
    out: Option<usize>,
    signal: u8,
    seed: u32,
    prov: Prov,
    form: u8,
}

fn sample(c: &Case, row: usize, i: usize) -> f32 {
    let r = h(c.seed ^ 0x55 ^ (row as u32) << 8, i);
    let noise = (r >> 40) as f32 / (1 << 23) as f32 - 1.;
    match c.signal % 14 {
        0 => noise,
        1 => noise * 1e3 + 500.,
        2 => if i == (c.seed as usize + row) % c.len { 1. } else { 0. },
        3 => (2. * std::f64::consts::PI * ((c.seed as usize + row) % c.len) as f64 * i as f64 / c.len as f64).cos() as f32,
        4 => 1. + row as f32,
        5 => ((r >> 20) % 7) as f32 - 3.,
        6 => if i % 2 == 0 { 1. } else { -1. },
        7 => noise * 1e-4 * (row + 1) as f32,
        8 => noise * 1e30,
        9 => noise * 1e-25,
        10 => if (row as u32 ^ c.seed) % 3 == 0 { noise } else { 0. },
        11 => if (row as u32 ^ c.seed) % 3 == 0 { noise * 1e20 } else { noise },
        // a row that is not finite must not reach the others
        12 => if (row as u32 ^ c.seed) % 3 == 0 && i == c.seed as usize / 3 % c.len { [f32::NAN, f32::INFINITY, f32::NEG_INFINITY][c.seed as usize % 3] } else { noise },
        _ => if i % 5 == 0 { noise } else { 0. },
    }
}

fn transform(t: &Tensor, out: Option<usize>, form: u8) -> Tensor {
    #[cfg(feature = "hooks")]
    {
        use essay_tensor::signal::FftOpt;
        if let Some(n) = out {
            return if form % 2 == 0 { rfft_norm(t, ().fft_length(n)) } else { rfft_norm(t.clone(), ().fft_length(n + 3).fft_length(n)) };
        }
    }
    let _ = out;
    if form % 2 == 0 { rfft_norm(t, ()) } else { rfft_norm(t.clone(), ()) }
}

fn check(c: &Case, ctx: &mut Ctx) -> R {
    let n = c.len;
    let rows = size(&c.lead);
    let mut shape = c.lead.clone();
    shape.push(n);
    let m = M::new(shape.clone(), (0..rows * n).map(|i| sample(c, i / n, i % n)).collect());
    let (t, _keep) = place_or_fresh(&m, &c.prov, c.seed);
    let out = if cfg!(feature = "hooks") { c.out } else { None };
    ctx.nt(n > 1 && m.data.iter().any(|x| *x != 0.));
    ctx.label_if(rows > 1, "batch");
    ctx.label_if(c.prov.is_view(), "view");
    ctx.label_if(n.is_power_of_two(), "power of two");
    ctx.label_if(n % 2 == 1, "odd length");
    ctx.label_if(n > 3 && (2..n).take_while(|d| d * d <= n).all(|d| n % d != 0), "prime length");
    let half = n / 2 + 1;
    let w = out.unwrap_or(half);
    ctx.label(match out { None => "default length", Some(k) if k < half => "truncated", Some(k) if k > half => "padded", _ => "given the default length" });
    let what = format!("rfft_norm of {:?}, length {:?}", shape, out);
    let got = accepts(|| what.clone(), || transform(&t, out, c.form))?;
    let mut so = c.lead.clone();
    so.push(w);
    let gs = got.shape().as_vec();
    ensure!(gs == so, "{}: shape {:?}, expected {:?}", what, gs, so);
    let v = got.as_slice();
    ensure!(v.len() == size(&so), "{}: {} elements", what, v.len());
    let tau = 2. * std::f64::consts::PI;
    let tw: Vec<(f64, f64)> = (0..n).map(|k| (tau * k as f64 / n as f64).sin_cos()).collect();
    let finite = |r: usize| m.data[r * n..(r + 1) * n].iter().all(|x| x.is_finite());
    // long rows: a sample of the frequencies
    let step = if rows * w * n > 4_000_000 { rows * w * n / 4_000_000 + 1 } else { 1 };
    ctx.label_if((0..rows).any(|r| !finite(r)), "a row not finite");
    for r in 0..rows {
        let x: Vec<f64> = (0..n).map(|i| { let s = (std::f64::consts::PI * i as f64 / n as f64).sin(); m.data[r * n + i] as f64 * s * s }).collect();
        let l1: f64 = m.data[r * n..(r + 1) * n].iter().map(|x| x.abs() as f64).sum();
        let tol = (16. + 8. * (n as f64).log2()) * f32::EPSILON as f64 * l1 + 1e-40;
        for k in (0..w).filter(|k| step == 1 || *k + 2 > w || k % step == (c.seed as usize + r) % step) {
            if k < half && !finite(r) {
                continue;
            }
            let g = v[r * w + k] as f64;
            let want = if k < half {
                let (mut re, mut im) = (0., 0.);
                let mut q = 0;
                for s in &x {
                    re += s * tw[q].1;
                    im -= s * tw[q].0;
                    q += k;
                    if q >= n { q -= n }
                }
                (re * re + im * im).sqrt()
            } else {
                0.
            };
            if k >= half {
                ensure!(g == 0., "{}: row {} position {} is {:?}, expected the padding 0", what, r, k, g);
            } else {
                ensure!((g - want).abs() <= tol, "{}: row {} frequency {} is {:?}, expected {:?} within {:?}", what, r, k, g, want, tol);
            }
        }
    }
    expect("operand afterwards", &t, &m)
}

fn main() {
    let case = |lead: BoxedStrategy<Vec<usize>>, len: BoxedStrategy<usize>| {
        (lead, len, prop::option::weighted(0.5, 0u32..2000), any::<u8>(), 0u32..100_000, prov(), any::<u8>())
            .prop_map(|(lead, len, out, signal, seed, prov, form)| {
                let half = len / 2 + 1;
                let out = out.map(|o| match o % 4 { 0 => half, 1 => 1 + (o as usize / 4) % half, _ => 1 + (o as usize / 4) % (2 * len + 4) });
                Case { lead, len, out, signal, seed, prov, form }
            })
    };
    let len = prop_oneof![2 => 1usize..=4, 6 => 2usize..=20, 3 => 1usize..=70, 1 => Just(64usize)].boxed();
    let long = prop_oneof![2 => 70usize..=300, 1 => (4usize..27).prop_map(|k| EDGES[k]), 1 => Just(331usize), 1 => Just(509)].boxed();
    vharness::fw::main(Prop {
        id: "C18",
        rule: "a case is a batch of rows (length, signal, provenance) and an optional output length; non-trivial: rows longer than one that are not all zero",
        subs: vec![
            sub("rfft", 30_000, case(sshape(0, 5, 12), len), check),
            sub("rfft_long", 500, case(sshape(0, 3, 3), long), check),
            sub("rfft_huge", 60, case(sshape(0, 2, 3), prop_oneof![3 => 500usize..5000, 1 => (9u32..15).prop_map(|k| 1usize << k), 1 => 5000usize..20_000].boxed()), check),
        ],
    });
}
