//! C11: row-wise, expanding and index-driven operations see and place the right data
use vharness::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    t: TS,
    n: usize,
    axis: Option<(usize, bool)>,
}

macro_rules! with_k {
    ($n:expr, $N:ident => $body:expr) => {
        match $n {
            1 => { const $N: usize = 1; $body }
            2 => { const $N: usize = 2; $body }
            3 => { const $N: usize = 3; $body }
            _ => { const $N: usize = 6; $body }
        }
    };
}

fn row<const N: usize>(c: &Case, ctx: &mut Ctx) -> R {
    let b = c.t.build::<u32>();
    let (t, m) = (&b.t, &b.m);
    ctx.nt(m.data.len() > 1);
    ctx.label(&format!("N={}", N));
    let w = m.cols();
    let rows: Vec<Vec<u32>> = m.data.chunks(w).map(|r| r.to_vec()).collect();
    let f = |r: &[u32], i: usize, k: usize| format!("{}.{}.{:?}", i, k, if r.len() > 12 { &r[r.len() - 12..] } else { r });
    let mut shape = m.shape.clone();
    if N == 1 && m.rank() > 1 {
        shape.pop();
    } else {
        *shape.last_mut().unwrap() = N;
    }
    let want = M::new(shape, rows.iter().enumerate().flat_map(|(i, r)| (0..N).map(move |k| f(r, i, k))).collect());
    let mut calls: Vec<Vec<u32>> = vec![];
    let got = accepts(|| format!("map_row of {:?}", m.shape), || t.map_row::<N, String>(|r| {
        calls.push(r.to_vec());
        let i = calls.len() - 1;
        std::array::from_fn(|k| f(r, i, k))
    }))?;
    ensure!(calls == rows, "map_row of {:?} called the function with {:?}..., expected {:?}...", m.shape, calls.iter().take(3).collect::<Vec<_>>(), rows.iter().take(3).collect::<Vec<_>>());
    expect("map_row", &got, &want)
}

fn expand<const N: usize>(c: &Case, ctx: &mut Ctx) -> R {
    let b = c.t.build::<u32>();
    let (t, m) = (&b.t, &b.m);
    ctx.nt(m.data.len() > 1);
    ctx.label(&format!("N={}", N));
    if m.rank() == 6 {
        ctx.label("no room for another dimension");
        return rejects(|| format!("map_expand of {:?}", m.shape), || t.map_expand::<N, u64>(|v| std::array::from_fn(|k| *v as u64 + k as u64)));
    }
    let mut shape = m.shape.clone();
    shape.push(N);
    let want = M::new(shape, m.data.iter().enumerate().flat_map(|(i, v)| (0..N).map(move |k| (i as u64, *v as f64 + k as f64 / 8.))).collect::<Vec<_>>());
    let mut calls = vec![];
    let got = accepts(|| format!("map_expand of {:?}", m.shape), || t.map_expand::<N, (u64, f64)>(|v| {
        calls.push(*v);
        let i = calls.len() as u64 - 1;
        std::array::from_fn(|k| (i, *v as f64 + k as f64 / 8.))
    }))?;
    ensure!(calls == m.data, "map_expand of {:?} called the function in another order or number of times", m.shape);
    expect("map_expand", &got, &want)
}

fn frow<const N: usize>(c: &Case, ctx: &mut Ctx) -> R {
    let b = c.t.build::<u32>();
    let (t, m) = (&b.t, &b.m);
    ctx.nt(m.data.len() > 1);
    ctx.label(&format!("N={}", N));
    let cols = m.cols();
    // the tensor of row numbers
    let rshape = m.shape[..m.rank() - 1].to_vec();
    let rows: Vec<Vec<u32>> = m.data.chunks(cols).map(|r| r.to_vec()).collect();
    let rm = M::new(rshape.clone(), (0..rows.len()).collect());
    let step = |s: [u64; N], r: &[u32]| -> [u64; N] {
        let h = r.iter().fold(r.len() as u64, |h, v| h.wrapping_mul(31).wrapping_add(*v as u64));
        std::array::from_fn(|k| s[k].wrapping_mul(1_000_003).wrapping_add(h).wrapping_add(k as u64))
    };
    let init: [u64; N] = std::array::from_fn(|k| 100 + k as u64);
    let (a, rest, groups): (Option<isize>, Vec<usize>, Vec<Vec<usize>>) = match c.axis {
        Some((raw, neg)) => {
            let (a, k) = axis_of(raw, neg, m.rank());
            if m.rank() == 1 {
                (Some(a), vec![], vec![vec![0]])
            } else if k + 1 == m.rank() {
                ctx.label("the row axis itself, refused");
                return rejects(|| format!("fold_row along the row axis {} of {:?}", a, m.shape), || t.fold_row(a, init, step));
            } else {
                let (rest, g) = rm.groups(k);
                (Some(a), rest, g)
            }
        }
        None => (None, vec![], vec![rm.data.clone()]),
    };
    ctx.label(if a.is_none() { "all rows" } else { "along an axis" });
    let mut shape = rest;
    shape.push(N);
    let want = M::new(shape, groups.iter().flat_map(|g| g.iter().fold(init, |s, r| step(s, &rows[*r]))).collect());
    let mut calls = 0;
    let got = accepts(|| format!("fold_row {:?} of {:?}", a, m.shape), || t.fold_row(a, init, |s, r| { calls += 1; step(s, r) }))?;
    expect(&format!("fold_row {:?} of {:?}", a, m.shape), &got, &want)?;
    ensure!(calls == rows.len(), "fold_row called the function {} times for {} rows", calls, rows.len());
    Ok(())
}

fn init(c: &Case, ctx: &mut Ctx) -> R {
    let shape = &c.t.shape;
    let n = size(shape);
    ctx.nt(n > 1);
    ctx.label(&format!("rank {}", shape.len()));
    let mut k = 0u32;
    let t = accepts(|| format!("init {:?}", shape), || Tensor::init(shape.as_slice(), || { k += 1; format!("{}", k) }))?;
    ensure!(k as usize == n, "init of {:?} called the function {} times", shape, k);
    expect("init", &t, &M::new(shape.clone(), (1..=n).map(|i| format!("{}", i)).collect()))?;
    let mut calls: Vec<Vec<usize>> = vec![];
    let t = accepts(|| format!("init_rindexed {:?}", shape), || Tensor::init_rindexed(shape.as_slice(), |i| { calls.push(i.to_vec()); i.iter().fold(7u64, |h, x| h * 131 + *x as u64) }))?;
    let rev = |i: &[usize]| { let mut v = i.to_vec(); v.reverse(); v };
    let want: Vec<Vec<usize>> = indices(shape).map(|i| rev(&i)).collect();
    ensure!(calls == want, "init_rindexed of {:?} passed {:?}..., expected {:?}...", shape, calls.iter().take(8).collect::<Vec<_>>(), want.iter().take(8).collect::<Vec<_>>());
    expect("init_rindexed", &t, &M::from_fn(shape.clone(), |i| rev(i).iter().fold(7u64, |h, x| h * 131 + *x as u64)))?;
    let t = Tensor::init([0], || 1u8);
    ensure!(t.size() == 0 && t.shape().as_vec() == [0], "init of no elements");
    Ok(())
}

fn main() {
    let case = |min: usize, cap: usize| {
        (ts(mshape(min, 6, cap), &[IOTA, EXTREME]), prop_oneof![Just(1usize), Just(2), Just(3), Just(6)], prop::option::weighted(0.8, (0usize..6, any::<bool>())))
            .prop_map(|(t, n, axis)| Case { t, n, axis })
    };
    vharness::fw::main(Prop {
        id: "C11",
        rule: "a case is a tensor, a width of the returned rows and an axis; non-trivial: more than one element",
        subs: vec![
            sub("empty", 3_000, vharness::empties::empty(), |c, ctx| vharness::empties::check("C11", c, ctx)),
            sub("map_row", 40_000, case(1, 1_000), |c, ctx| with_k!(c.n, N => row::<N>(c, ctx))),
            sub("map_expand", 40_000, case(0, 1_000), |c, ctx| with_k!(c.n, N => expand::<N>(c, ctx))),
            sub("fold_row", 60_000, case(1, 1_000), |c, ctx| with_k!(c.n, N => frow::<N>(c, ctx))),
            sub("init", 30_000, case(0, 1_000), init),
            sub("map_row_large", 500, case(1, 150_000), |c, ctx| with_k!(c.n, N => row::<N>(c, ctx))),
            sub("map_expand_large", 500, case(0, 150_000), |c, ctx| with_k!(c.n, N => expand::<N>(c, ctx))),
            sub("fold_row_large", 500, case(1, 150_000), |c, ctx| with_k!(c.n, N => frow::<N>(c, ctx))),
            sub("init_large", 300, case(0, 150_000), init),
        ],
    });
}
