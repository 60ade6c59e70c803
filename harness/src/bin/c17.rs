//! C17: matrix products equal the mathematical product in every configuration
use essay_tensor::linalg;
use vharness::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    batch: Vec<usize>,
    m: usize,
    k: usize,
    n: usize,
    /// 0 none, 1 a, 2 b, 3 both
    tr: u8,
    small: bool,
    seed: u32,
    prov: (Prov, Prov),
    form: u8,
    /// spoil: (operand, dimension, by)
    wrong: Option<(bool, usize, usize)>,
    /// matvec: how the batches relate
    rel: u8,
}

fn val(small: bool, seed: u32, i: usize) -> f32 {
    if small { f32::make(SMALL, seed, i) } else { f32::make(MODERATE, seed, i) / 64. }
}

fn operand(c: &Case, shape: Vec<usize>, salt: u32) -> M<f32> {
    let n = size(&shape);
    M::new(shape, (0..n).map(|i| val(c.small, c.seed ^ salt, i)).collect())
}

/// product of the matrices, element by element, with the sum of magnitudes
fn product(k: usize, a: impl Fn(usize) -> f32, b: impl Fn(usize) -> f32) -> (f64, f64) {
    let (mut v, mut mag) = (0f64, 0f64);
    for i in 0..k {
        let p = a(i) as f64 * b(i) as f64;
        v += p;
        mag += p.abs();
    }
    (v, mag)
}

fn close(small: bool, k: usize, got: f32, (v, mag): (f64, f64)) -> bool {
    if small {
        got as f64 == v
    } else {
        (got as f64 - v).abs() <= (k as f64 + 4.) * f32::EPSILON as f64 * mag + 1e-40
    }
}

#[cfg(feature = "hooks")]
fn opt(tr: u8) -> linalg::Transpose {
    match tr % 4 {
        0 => linalg::Transpose::None,
        1 => linalg::Transpose::TransposeA,
        2 => linalg::Transpose::TransposeB,
        _ => linalg::Transpose::TransposeAB,
    }
}

fn matmul_with(a: &Tensor, b: &Tensor, tr: u8, form: u8) -> Tensor {
    #[cfg(feature = "hooks")]
    if tr != 0 || form % 3 == 2 {
        return a.matmul_t(b, opt(tr));
    }
    let _ = tr;
    if form % 3 == 0 { a.matmul(b) } else { linalg::matmul(a, b) }
}

fn matvec_with(a: &Tensor, x: &Tensor, tr: u8, form: u8) -> Tensor {
    #[cfg(feature = "hooks")]
    if tr != 0 || form % 2 == 1 {
        return a.matvec_t(x, opt(tr));
    }
    let _ = (tr, form);
    a.matvec(x)
}

fn note(c: &Case, ctx: &mut Ctx) {
    ctx.label(if c.small { "small integers, exact" } else { "fractions" });
    ctx.label_if(c.prov.0.is_view() || c.prov.1.is_view(), "view");
    ctx.label_if(size(&c.batch) > 1, "batch");
    ctx.label_if(c.m > 64 || c.n > 64 || c.k > 64, "a dimension above 64");
    ctx.label_if(c.k > 256, "inner dimension above 256");
    ctx.label_if(c.k == 1, "inner dimension one");
}

fn matmul(c: &Case, ctx: &mut Ctx) -> R {
    let tr = if cfg!(feature = "hooks") { c.tr % 4 } else { 0 };
    let (ta, tb) = (tr & 1 == 1, tr & 2 == 2);
    let mut sa = c.batch.clone();
    sa.extend(if ta { [c.k, c.m] } else { [c.m, c.k] });
    let mut sb = c.batch.clone();
    sb.extend(if tb { [c.n, c.k] } else { [c.k, c.n] });
    note(c, ctx);
    ctx.label(["plain", "a transposed", "b transposed", "both transposed"][tr as usize]);
    ctx.nt(c.m * c.n * c.k > 1);
    if let Some((first, d, by)) = c.wrong {
        let s = if first { &mut sa } else { &mut sb };
        let r = s.len();
        // the inner dimension of this operand, a batch dimension, or the rank
        let inner = if first { if ta { r - 2 } else { r - 1 } } else if tb { r - 1 } else { r - 2 };
        match d % 4 {
            0 | 1 => s[inner] += by,
            2 if r > 2 => s[by % (r - 2)] += by,
            2 if r < 6 => s.insert(0, by + 1),
            _ if d % 8 == 3 && r < 6 => s.insert(by % (r - 1), by + 1),
            _ if r == 2 => { s.remove(if inner == 0 { 0 } else { 1 }); }
            _ => { s.remove(0); }
        }
        if sa.len() == sb.len() && sa.len() > 2 && sa[..sa.len() - 2] == sb[..sb.len() - 2] && d % 4 > 1 {
            return Ok(());
        }
        ctx.label("refused");
        let (a, b) = (operand(c, sa.clone(), 1), operand(c, sb.clone(), 2));
        let (a, _k) = place_or_fresh(&a, &c.prov.0, c.seed);
        let (b, _l) = place_or_fresh(&b, &c.prov.1, c.seed);
        return rejects(|| format!("matmul of {:?} and {:?}, transposition {}", sa, sb, tr), || matmul_with(&a, &b, tr, c.form));
    }
    let (ma, mb) = (operand(c, sa.clone(), 1), operand(c, sb.clone(), 2));
    let (mut a, _k) = place_or_fresh(&ma, &c.prov.0, c.seed);
    let (mut b, _l) = place_or_fresh(&mb, &c.prov.1, c.seed + 1);
    if let Some(mut t) = siblings(&[&ma, &mb], c.seed) {
        (b, a) = (t.pop().unwrap(), t.pop().unwrap());
    }
    let what = format!("matmul of {:?} and {:?}, transposition {}", sa, sb, tr);
    let got = accepts(|| what.clone(), || matmul_with(&a, &b, tr, c.form))?;
    let mut so = c.batch.clone();
    so.extend([c.m, c.n]);
    let shape = got.shape().as_vec();
    ensure!(shape == so, "{}: shape {:?}, expected {:?}", what, shape, so);
    let v = got.as_slice();
    ensure!(v.len() == size(&so), "{}: {} elements", what, v.len());
    for q in 0..size(&c.batch) {
        let (da, db) = (&ma.data[q * c.m * c.k..(q + 1) * c.m * c.k], &mb.data[q * c.k * c.n..(q + 1) * c.k * c.n]);
        for i in 0..c.m {
            for j in 0..c.n {
                let want = product(c.k, |l| if ta { da[l * c.m + i] } else { da[i * c.k + l] }, |l| if tb { db[j * c.k + l] } else { db[l * c.n + j] });
                let g = v[(q * c.m + i) * c.n + j];
                ensure!(close(c.small, c.k, g, want), "{}: element ({}, {}) of matrix {} is {:?}, expected {:?}", what, i, j, q, g, want.0);
            }
        }
    }
    expect("first operand afterwards", &a, &ma)?;
    expect("second operand afterwards", &b, &mb)
}

/// rows of x: batch (as the matrices), n rows of k
fn matvec(c: &Case, ctx: &mut Ctx) -> R {
    let tr = if cfg!(feature = "hooks") { c.tr % 2 } else { 0 };
    note(c, ctx);
    ctx.label(["plain", "a transposed"][tr as usize]);
    ctx.nt(c.m * c.n * c.k > 1);
    let mat = if tr == 1 { [c.k, c.m] } else { [c.m, c.k] };
    // equal leading dimensions, or one matrix for all vectors
    let (mut sa, mut sx) = (vec![], vec![]);
    match c.rel % 4 {
        0 => {
            ctx.label("one matrix, one vector");
            sa.extend(mat);
            sx.push(c.k);
        }
        1 => {
            ctx.label("one matrix, many vectors");
            sa.extend(mat);
            sx.extend(&c.batch);
            sx.extend([c.n, c.k]);
        }
        _ => {
            ctx.label("equal leading dimensions");
            sa.extend(&c.batch);
            sa.extend(mat);
            sx.extend(&c.batch);
            sx.extend([c.n, c.k]);
        }
    }
    if let Some((first, d, by)) = c.wrong {
        match d % 3 {
            0 if first => { let r = sa.len(); sa[if tr == 1 { r - 2 } else { r - 1 }] += by; }
            0 => *sx.last_mut().unwrap() += by,
            1 if sa.len() > 2 && sx.len() > 2 => {
                // disagreeing batches
                let i = by % (sa.len() - 2);
                if first { sa[i] += by } else { sx[i] += by }
            }
            1 => *sx.last_mut().unwrap() += by,
            _ => { sa.remove(by % sa.len()); if sa.len() > 1 { return Ok(()) } }
        }
        ctx.label("refused");
        let (a, x) = (operand(c, sa.clone(), 1), operand(c, sx.clone(), 2));
        let (a, _k) = place_or_fresh(&a, &c.prov.0, c.seed);
        let (x, _l) = place_or_fresh(&x, &c.prov.1, c.seed);
        return rejects(|| format!("matvec of {:?} and {:?}, transposition {}", sa, sx, tr), || matvec_with(&a, &x, tr, c.form));
    }
    let (ma, mx) = (operand(c, sa.clone(), 1), operand(c, sx.clone(), 2));
    let (mut a, _k) = place_or_fresh(&ma, &c.prov.0, c.seed);
    let (mut x, _l) = place_or_fresh(&mx, &c.prov.1, c.seed + 1);
    if let Some(mut t) = siblings(&[&ma, &mx], c.seed) {
        (x, a) = (t.pop().unwrap(), t.pop().unwrap());
    }
    let what = format!("matvec of {:?} and {:?}, transposition {}", sa, sx, tr);
    let got = accepts(|| what.clone(), || matvec_with(&a, &x, tr, c.form))?;
    let mut so = sx.clone();
    *so.last_mut().unwrap() = c.m;
    let shape = got.shape().as_vec();
    ensure!(shape == so, "{}: shape {:?}, expected {:?}", what, shape, so);
    let v = got.as_slice();
    ensure!(v.len() == size(&so), "{}: {} elements", what, v.len());
    let rows = mx.data.len() / c.k;
    let mats = ma.data.len() / (c.m * c.k);
    for r in 0..rows {
        let q = r / (rows / mats);
        let da = &ma.data[q * c.m * c.k..(q + 1) * c.m * c.k];
        for i in 0..c.m {
            let want = product(c.k, |l| if tr == 1 { da[l * c.m + i] } else { da[i * c.k + l] }, |l| mx.data[r * c.k + l]);
            let g = v[r * c.m + i];
            ensure!(close(c.small, c.k, g, want), "{}: element {} of vector {} is {:?}, expected {:?}", what, i, r, g, want.0);
        }
    }
    expect("first operand afterwards", &a, &ma)?;
    expect("second operand afterwards", &x, &mx)
}

fn main() {
    let d = || prop_oneof![3 => Just(1usize), 8 => 2usize..=5, 4 => 4usize..=17];
    let big = |cap: usize| prop_oneof![2 => 1usize..=5, 2 => 6usize..=40, 2 => (0usize..EDGES.len()).prop_map(move |k| EDGES[k].min(cap)), 1 => 1usize..=cap];
    let case = |d: BoxedStrategy<usize>, batch: BoxedStrategy<Vec<usize>>, cap: usize, wrong: f64| {
        (
            (batch, d.clone(), d.clone(), d),
            (any::<u8>(), any::<bool>(), 0u32..100_000, any::<u8>(), any::<u8>()),
            (prov(), prov()),
            prop::option::weighted(wrong, (any::<bool>(), 0usize..24, 1usize..4)),
        )
            .prop_map(move |((batch, m, k, n), (tr, small, seed, form, rel), prov, wrong)| {
                let (mut m, mut k, mut n) = (m, k, n);
                while m * k * n * size(&batch) > cap {
                    // halve the largest but one, so that one dimension stays large
                    let mut v = [m, k, n];
                    v.sort();
                    let mid = v[1];
                    let h = (mid + 1) / 2;
                    if m == mid { m = h } else if n == mid { n = h } else { k = h }
                    if mid == 1 { break }
                }
                Case { batch, m, k, n, tr, small, seed, prov, form, wrong, rel }
            })
            .boxed()
    };
    let b = || sshape(0, 4, 12);
    // many matrices: one long leading dimension, or several that multiply up
    let many = || prop_oneof![1 => (0usize..EDGES.len()).prop_map(|k| vec![EDGES[k].min(1_100)]), 1 => shape(1, 4, 600), 1 => prop::collection::vec(1usize..=17, 1..=3)].boxed();
    let nob = || prop_oneof![3 => Just(vec![]), 1 => sshape(1, 2, 3)].boxed();
    vharness::fw::main(Prop {
        id: "C17",
        rule: "a case is two operands (sizes, batch shape, values, provenance), a transposition option and possibly a mismatch; non-trivial: more than one product",
        subs: vec![
            sub("matmul", 90_000, case(d().boxed(), b(), 30_000, 0.25), matmul),
            sub("matvec", 90_000, case(d().boxed(), b(), 30_000, 0.25), matvec),
            sub("matmul_large", 700, case(big(1100).boxed(), nob(), 400_000, 0.02), matmul),
            sub("matvec_large", 500, case(big(1100).boxed(), nob(), 400_000, 0.02), matvec),
            sub("matmul_many", 600, case(d().boxed(), many(), 20_000, 0.02), matmul),
            sub("matvec_many", 600, case(d().boxed(), many(), 20_000, 0.02), matvec),
            sub("matmul_long", 240, case(big(5000).boxed(), nob(), 400_000, 0.001), matmul),
        ],
    });
}
