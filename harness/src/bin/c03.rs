//! C03: construction lays elements out row-major and the shape matches the data
use vharness::prelude::*;
use vharness::{with_n, with_type};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Data {
    ty: u8,
    shape: Vec<usize>,
    v: V,
}

fn data(s: BoxedStrategy<Vec<usize>>) -> BoxedStrategy<Data> {
    (0u8..10, s, vals(&[IOTA, EXTREME])).prop_map(|(ty, shape, v)| Data { ty, shape, v }).boxed()
}

fn meta<T: Elem>(t: &Tensor<T>, m: &M<T>) -> R {
    ensure!(t.offset() == 0 || t.offset() > 0, "offset");
    let s = t.shape();
    ensure!(s.size() == m.data.len(), "shape().size() {} for {:?}", s.size(), m.shape);
    ensure!(s.rank() == m.rank(), "rank {} for {:?}", s.rank(), m.shape);
    for (k, d) in m.shape.iter().enumerate() {
        ensure!(t.dim(k) == *d, "dim({}) {} for {:?}", k, t.dim(k), m.shape);
        ensure!(t.rdim(m.rank() - 1 - k) == *d, "rdim of {:?}", m.shape);
    }
    if m.rank() > 0 {
        ensure!(t.len() == m.shape[0], "len() {} for {:?}", t.len(), m.shape);
        ensure!(t.cols() == m.cols(), "cols() {} for {:?}", t.cols(), m.shape);
    }
    if m.rank() > 1 {
        ensure!(t.rows() == m.shape[m.rank() - 2], "rows() {} for {:?}", t.rows(), m.shape);
    }
    Ok(())
}

fn both<T: Elem>(what: &str, t: &Tensor<T>, m: &M<T>) -> R {
    expect(what, t, m)?;
    meta(t, m).map_err(|e| format!("{}: {}", what, e))
}

fn shaped<T: Elem>(c: &Data) -> R {
    let m = M::<T>::new(c.shape.clone(), values(c.v, size(&c.shape)));
    let d = || m.data.clone();
    both("from_vec with a slice of dimensions", &Tensor::from_vec(d(), c.shape.as_slice()), &m)?;
    both("from_vec with a vector of dimensions", &Tensor::from_vec(d(), c.shape.clone()), &m)?;
    both("from_vec with a shape", &Tensor::from_vec(d(), &Shape::from(c.shape.as_slice())), &m)?;
    both("from_box", &Tensor::from_box(d().into_boxed_slice(), c.shape.as_slice()), &m)?;
    let mut excess = Vec::with_capacity(m.data.len() + 9);
    excess.extend(d());
    both("from_vec of a vector with spare capacity", &Tensor::from_vec(excess, c.shape.as_slice()), &m)?;
    match c.shape.len() {
        0 => {
            both("array shape", &Tensor::from_vec(d(), []), &m)?;
            both("from a value", &Tensor::from(m.data[0].clone()), &m)?;
            both("from_scalar", &Tensor::from_scalar(m.data[0].clone()), &m)?;
            both("scalar()", &essay_tensor::tensor::scalar(m.data[0].clone()), &m)?;
        }
        1 => {
            both("array shape", &Tensor::from_vec(d(), [c.shape[0]]), &m)?;
            both("usize shape", &Tensor::from_vec(d(), c.shape[0]), &m)?;
        }
        2 => both("array shape", &Tensor::from_vec(d(), [c.shape[0], c.shape[1]]), &m)?,
        3 => both("array shape", &Tensor::from_vec(d(), [c.shape[0], c.shape[1], c.shape[2]]), &m)?,
        4 => both("array shape", &Tensor::from_vec(d(), [c.shape[0], c.shape[1], c.shape[2], c.shape[3]]), &m)?,
        5 => both("array shape", &Tensor::from_vec(d(), [c.shape[0], c.shape[1], c.shape[2], c.shape[3], c.shape[4]]), &m)?,
        _ => both("array shape", &Tensor::from_vec(d(), [c.shape[0], c.shape[1], c.shape[2], c.shape[3], c.shape[4], c.shape[5]]), &m)?,
    }
    Ok(())
}

fn arr<T: Elem, const N: usize>(v: &[T]) -> [T; N] {
    std::array::from_fn(|i| v[i].clone())
}

fn rank1<T: Elem>(c: &Data) -> R {
    let n = c.shape[0];
    let m = M::<T>::new(vec![n], values(c.v, n));
    both("from a vector", &Tensor::from(m.data.clone()), &m)?;
    both("from a borrowed vector", &Tensor::from(&m.data), &m)?;
    both("from a slice", &Tensor::from(m.data.as_slice()), &m)?;
    both("from_slice", &Tensor::from_slice(&m.data), &m)?;
    both("from_slice of a tensor", &Tensor::from_slice(&Tensor::from(m.data.clone())), &m)?;
    let t: Tensor<T> = m.data.clone().into_iter().collect();
    both("collected from an iterator", &t, &m)?;
    let t: Tensor<T> = m.data.iter().collect();
    both("collected from references", &t, &m)?;
    let t: Tensor<T> = m.data.iter().cloned().filter(|_| true).collect();
    both("collected from an iterator of unknown length", &t, &m)?;
    // iterators whose hints are too low or too high
    let t: Tensor<T> = m.data.iter().cloned().enumerate().filter(|(i, _)| i % 3 != 1).map(|(_, x)| x).collect();
    let kept: Vec<T> = (0..n).filter(|i| i % 3 != 1).map(|i| m.data[i].clone()).collect();
    both("collected from an iterator that skips some", &t, &M::new(vec![kept.len()], kept))?;
    let t: Tensor<T> = m.data.chunks(2).flat_map(|c| c.to_vec()).collect();
    both("collected from a flattened iterator", &t, &m)?;
    let mut i = 0;
    let t: Tensor<T> = std::iter::from_fn(|| { i += 1; m.data.get(i - 1).cloned() }).collect();
    both("collected from a function", &t, &m)?;
    let t: Tensor<T> = m.data.iter().take_while(|_| true).collect();
    both("collected from references of unknown number", &t, &m)?;
    both("from a tensor", &Tensor::from(&Tensor::from(m.data.clone())), &m)?;
    if NS.contains(&n) {
        with_n!(n, N => both("from an array", &Tensor::from(arr::<T, N>(&m.data)), &m)?);
    }
    // rows of different lengths are joined end to end
    let k = n / 3;
    let rows = vec![m.data[..k].to_vec(), vec![], m.data[k..].to_vec()];
    both("join_vec", &Tensor::join_vec(&rows), &m)
}

fn nest<T: Clone>(v: &[T], n: usize) -> Vec<Vec<T>> {
    v.chunks(n).map(|c| c.to_vec()).collect()
}

fn nested<T: Elem>(c: &Data) -> R {
    let s = &c.shape;
    let m = M::<T>::new(s.clone(), values(c.v, size(s)));
    let n = m.cols();
    let v2 = nest(&m.data, n);
    match s.len() {
        2 => {
            both("from nested vectors", &Tensor::from(&v2), &m)?;
            if NS.contains(&n) {
                with_n!(n, N => {
                    let rows: Vec<[T; N]> = v2.iter().map(|r| arr::<T, N>(r)).collect();
                    both("from borrowed rows", &Tensor::from(&rows), &m)?;
                    both("from a slice of rows", &Tensor::from(rows.as_slice()), &m)?;
                    both("from rows", &Tensor::from(rows.clone()), &m)?;
                    let mut spare = Vec::with_capacity(rows.len() + 3);
                    spare.extend(rows.clone());
                    both("from rows with spare capacity", &Tensor::from(spare), &m)?;
                    if s[0] <= 5 {
                        macro_rules! go { ($k:literal) => { both("from an array of arrays", &Tensor::from(std::array::from_fn::<[T; N], $k, _>(|i| rows[i].clone())), &m)? } }
                        match s[0] { 1 => go!(1), 2 => go!(2), 3 => go!(3), 4 => go!(4), _ => go!(5) }
                    }
                });
            }
        }
        3 => {
            let v3 = nest(&v2, s[1]);
            both("from nested vectors", &Tensor::from(&v3), &m)?;
            if NS.contains(&n) {
                with_n!(n, N => {
                    let rows: Vec<Vec<[T; N]>> = v3.iter().map(|r| r.iter().map(|q| arr::<T, N>(q)).collect()).collect();
                    both("from nested vectors of rows", &Tensor::from(&rows), &m)?;
                });
            }
            if s[0] == 2 && s[1] == 3 && n == 4 {
                let a: [[[T; 4]; 3]; 2] = std::array::from_fn(|i| std::array::from_fn(|j| arr(&v3[i][j])));
                both("from an array", &Tensor::from(a), &m)?;
            }
            if s[0] == 3 && s[1] == 1 && n == 2 {
                let a: [[[T; 2]; 1]; 3] = std::array::from_fn(|i| std::array::from_fn(|j| arr(&v3[i][j])));
                both("from an array", &Tensor::from(a), &m)?;
            }
            if s[0] == 1 && s[1] == 2 && n == 3 {
                let a: [[[T; 3]; 2]; 1] = std::array::from_fn(|i| std::array::from_fn(|j| arr(&v3[i][j])));
                both("from an array", &Tensor::from(a), &m)?;
            }
        }
        4 => {
            let v4 = nest(&nest(&v2, s[2]), s[1]);
            both("from nested vectors", &Tensor::from(&v4), &m)?;
            if s == &[2, 3, 1, 4] {
                let a: [[[[T; 4]; 1]; 3]; 2] = std::array::from_fn(|i| std::array::from_fn(|j| std::array::from_fn(|k| arr(&v4[i][j][k]))));
                both("from an array", &Tensor::from(a), &m)?;
            }
            if s == &[3, 2, 4, 2] {
                let a: [[[[T; 2]; 4]; 2]; 3] = std::array::from_fn(|i| std::array::from_fn(|j| std::array::from_fn(|k| arr(&v4[i][j][k]))));
                both("from an array", &Tensor::from(a), &m)?;
            }
        }
        _ => {
            let v5 = nest(&nest(&nest(&v2, s[3]), s[2]), s[1]);
            both("from nested vectors", &Tensor::from(&v5), &m)?;
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mismatch {
    shape: Vec<usize>,
    n: usize,
    mode: u8,
}

fn mismatch(c: &Mismatch, ctx: &mut Ctx) -> R {
    // exact product with no wrapping
    let product = if c.shape.contains(&0) { Some(0) } else { c.shape.iter().try_fold(1u128, |a, d| a.checked_mul(*d as u128)) };
    if product == Some(c.n as u128) && c.shape.len() <= 6 {
        return Ok(());
    }
    ctx.nt(true);
    ctx.label(if c.shape.len() > 6 { "rank over six" } else if c.shape.iter().any(|d| *d > 60_000) { "huge dimension" } else { "wrong count" });
    let v: Vec<u8> = vec![7; c.n];
    let what = || format!("{} elements with shape {:?} (form {})", c.n, c.shape, c.mode);
    match c.mode {
        0 => rejects(what, || Tensor::from_vec(v, c.shape.as_slice())),
        1 => rejects(what, || Tensor::from_vec(v, c.shape.clone())),
        2 => rejects(what, || Tensor::from_box(v.into_boxed_slice(), c.shape.as_slice())),
        3 => rejects(what, || Tensor::from(v).reshape(c.shape.as_slice())),
        4 => rejects(what, || Tensor::from_merge(&[Tensor::from(v.clone())], c.shape.as_slice())),
        _ => match c.shape.len() {
            1 => rejects(what, || Tensor::from_vec(v, c.shape[0])),
            2 => rejects(what, || Tensor::from_vec(v, [c.shape[0], c.shape[1]])),
            3 => rejects(what, || Tensor::from_vec(v, [c.shape[0], c.shape[1], c.shape[2]])),
            7 => rejects(what, || Tensor::from_vec(v, [c.shape[0], c.shape[1], c.shape[2], c.shape[3], c.shape[4], c.shape[5], c.shape[6]])),
            _ => rejects(what, || Tensor::from_vec(v, c.shape.as_slice())),
        },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ragged {
    shape: Vec<usize>,
    level: usize,
    pos: usize,
    grow: bool,
    compensate: bool,
}

/// make one vector at `level` of the nesting longer or shorter
fn ragged(c: &Ragged, ctx: &mut Ctx) -> R {
    let s = &c.shape;
    let n = size(s);
    let v: Vec<i32> = (0..n as i32).collect();
    let level = 1 + c.level % (s.len() - 1); // axis whose length is disturbed
    ctx.label(&format!("rank {} level {}", s.len(), level));
    macro_rules! disturb {
        ($list:expr) => {{
            let k = c.pos % $list.len();
            if $list.len() < 2 {
                return Ok(());
            }
            if c.grow {
                let x = $list[k].last().unwrap().clone();
                $list[k].push(x);
            } else {
                $list[k].pop();
            }
            if c.compensate {
                // keep the total count
                let j = (k + 1) % $list.len();
                if c.grow {
                    $list[j].pop();
                } else {
                    let x = $list[j].last().unwrap().clone();
                    $list[j].push(x);
                }
            }
        }};
    }
    let mut v2 = nest(&v, s[s.len() - 1]);
    let last = level == s.len() - 1;
    if last {
        disturb!(v2);
    }
    ctx.nt(true);
    let what = || format!("ragged nesting {:?}", c);
    if s.len() == 2 {
        return rejects(what, || Tensor::from(&v2));
    }
    let mut v3 = nest(&v2, s[s.len() - 2]);
    if level == s.len() - 2 {
        disturb!(v3);
    }
    if s.len() == 3 {
        rejects(what, || Tensor::from(&v3))?;
        if level == 1 && s[2] == 3 {
            let rows: Vec<Vec<[i32; 3]>> = v3.iter().map(|r| r.iter().map(|q| [q[0], q[1], q[2]]).collect()).collect();
            rejects(what, || Tensor::from(&rows))?;
        }
        return Ok(());
    }
    let mut v4 = nest(&v3, s[s.len() - 3]);
    if level == s.len() - 3 {
        disturb!(v4);
    }
    if s.len() == 4 {
        return rejects(what, || Tensor::from(&v4));
    }
    let mut v5 = nest(&v4, s[s.len() - 4]);
    if level == s.len() - 4 {
        disturb!(v5);
    }
    rejects(what, || Tensor::from(&v5))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct List {
    shape: Vec<usize>,
    n: usize,
    v: V,
    prov: Vec<Prov>,
    odd: Option<(usize, Vec<usize>)>,
}

fn list(c: &List, ctx: &mut Ctx) -> R {
    let mut ms = Vec::new();
    let mut ts = Vec::new();
    let mut conform = true;
    for k in 0..c.n {
        let mut shape = c.shape.clone();
        if let Some((at, other)) = &c.odd {
            if at % c.n == k && c.n > 1 {
                // same element count where possible, different dimensions
                shape = if size(other) == size(&shape) || other.is_empty() { other.clone() } else { let mut s = shape.clone(); s.reverse(); s };
                if shape == c.shape {
                    shape.push(1);
                }
                if shape.len() > 6 {
                    return Ok(());
                }
                conform = shape == c.shape;
            }
        }
        let m = M::<i32>::new(shape.clone(), values(V { kind: c.v.kind, seed: c.v.seed + k as u32 * 1000 }, size(&shape)));
        ts.push(place_or_fresh(&m, &c.prov[k % c.prov.len()], c.v.seed).0);
        ms.push(m);
    }
    ctx.nt(c.n > 1);
    if conform && c.shape.len() < 6 {
        ctx.label("list accepted");
        let m = M::stack(&ms, 0).unwrap();
        both("from a borrowed vector of tensors", &Tensor::from(&ts), &m)?;
        both("from a slice of tensors", &Tensor::from(ts.as_slice()), &m)?;
        macro_rules! go { ($k:literal) => { both("from an array of tensors", &Tensor::from(std::array::from_fn::<Tensor<i32>, $k, _>(|i| ts[i].clone())), &m)? } }
        match c.n { 1 => go!(1), 2 => go!(2), 3 => go!(3), 4 => go!(4), _ => {} }
        Ok(())
    } else {
        ctx.label("list refused");
        rejects(|| format!("list of tensors {:?}", ms.iter().map(|m| m.shape.clone()).collect::<Vec<_>>()), || Tensor::from(&ts))?;
        rejects(|| "slice of tensors".to_string(), || Tensor::from(ts.as_slice()))
    }
}

fn special(c: &Data, ctx: &mut Ctx) -> R {
    let n = c.shape[0];
    ctx.nt(n > 0);
    let strings: Vec<String> = values(c.v, n);
    let strs: Vec<&str> = strings.iter().map(|s| s.as_str()).collect();
    let m = M::new(vec![n], strings.clone());
    both("from string slices", &Tensor::from(strs.clone()), &m)?;
    both("from a string slice", &Tensor::from(strs[0]), &M::scalar(strings[0].clone()))?;
    if NS.contains(&n) {
        with_n!(n, N => both("from an array of string slices", &Tensor::from(std::array::from_fn::<&str, N, _>(|i| strs[i])), &m)?);
    }
    let some: Tensor<i32> = Tensor::from(Some(n as i32));
    both("from some", &some, &M::scalar(n as i32))?;
    let none: Tensor<i32> = Tensor::from(None::<i32>);
    both("from none", &none, &M::new(vec![0], vec![]))?;
    both("from an empty vector", &Tensor::from(Vec::<i32>::new()), &M::new(vec![0], vec![]))?;
    both("from an empty slice", &Tensor::<i32>::from_slice([]), &M::new(vec![0], vec![]))?;
    let e: Tensor<String> = Vec::<String>::new().into_iter().collect();
    both("from an empty iterator", &e, &M::new(vec![0], vec![]))?;
    let d: Tensor<i64> = Tensor::init_default([n, 2]);
    both("init_default", &d, &M::new(vec![n, 2], vec![0; 2 * n]))?;
    let x = n as i32;
    both("ten![..]", &essay_tensor::ten![x, x + 1, x + 2], &M::new(vec![3], vec![x, x + 1, x + 2]))?;
    both("ten![[..],[..]]", &essay_tensor::ten![[x, x + 1], [x + 2, x + 3], [x + 4, x + 5]], &M::new(vec![3, 2], (x..x + 6).collect()))?;
    both("ten![[[..]]]", &essay_tensor::ten![[[x, x + 1, x + 2]], [[x + 3, x + 4, x + 5]]], &M::new(vec![2, 1, 3], (x..x + 6).collect()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Merge {
    parts: Vec<TS>,
    cut: Vec<usize>,
}

fn merge(c: &Merge, ctx: &mut Ctx) -> R {
    let mut b: Vec<Built<i64>> = c.parts.iter().map(|p| p.build()).collect();
    if let Some(s) = siblings(&b.iter().map(|x| &x.m).collect::<Vec<_>>(), c.parts[0].v.seed) {
        b.iter_mut().zip(s).for_each(|(b, t)| b.t = t);
    }
    let all: Vec<i64> = b.iter().flat_map(|b| b.m.data.clone()).collect();
    let list: Vec<Tensor<i64>> = b.iter().map(|b| b.t.clone()).collect();
    ctx.nt(list.len() > 1);
    let n = all.len();
    both("from_merge flat", &Tensor::from_merge(&list, n), &M::new(vec![n], all.clone()))?;
    let k = c.cut[0].max(1);
    if n % k == 0 {
        both("from_merge", &Tensor::from_merge(&list, [n / k, k]), &M::new(vec![n / k, k], all.clone()))?;
    }
    rejects(|| format!("from_merge of {} elements into {}", n, n + 1), || Tensor::from_merge(&list, n + 1))?;
    if n > 1 {
        rejects(|| format!("from_merge of {} elements into {}", n, n - 1), || Tensor::from_merge(&list, n - 1))?;
    }
    Ok(())
}

fn main() {
    let nt = |f: fn(&Data) -> R| move |c: &Data, ctx: &mut Ctx| {
        ctx.nt(size(&c.shape) > 1);
        ctx.label(&format!("rank {}", c.shape.len()));
        f(c)
    };
    let hugedim = || prop_oneof![4 => 0usize..6, 2 => dim(), 2 => Just(65536usize), 1 => Just(1usize << 31), 1 => Just(1usize << 32), 1 => Just((1usize << 32) + 3), 1 => Just(1usize << 16 | 1)];
    vharness::fw::main(Prop {
        id: "C03",
        rule: "a case is a source form, element type, dimensions and contents (or an inconsistent combination); non-trivial: more than one element, or an input that has to be refused",
        subs: vec![
            sub("shaped", 60_000, data(mshape(0, 6, 20_000)), nt(|c| with_type!(c.ty, T => shaped::<T>(c)))),
            sub("rank1", 40_000, data(prop_oneof![3 => 1usize..=20, 1 => dim()].prop_map(|n| vec![n]).boxed()), nt(|c| with_type!(c.ty, T => rank1::<T>(c)))),
            sub("nested", 100_000, data((2usize..=5).prop_flat_map(|r| prop_oneof![8 => prop::collection::vec(1usize..=5, r..=r), 1 => shape(r, r, 3000)]).boxed()), nt(|c| with_type!(c.ty, T => nested::<T>(c)))),
            sub("nested_large", 300, data(shape(2, 5, 60_000)), nt(|c| with_type!(c.ty, T => nested::<T>(c)))),
            sub("rank1_large", 300, data(shape(1, 1, 200_000)), nt(|c| with_type!(c.ty, T => rank1::<T>(c)))),
            sub("mismatch", 60_000, (prop_oneof![6 => prop::collection::vec(hugedim(), 0..=6), 1 => prop::collection::vec(1usize..=2, 7..=9)], prop_oneof![3 => 0usize..30, 1 => 0usize..300], 0u8..6)
                .prop_map(|(shape, n, mode)| {
                    // often nearly right
                    let p = shape.iter().try_fold(1usize, |a, d| a.checked_mul(*d)).unwrap_or(0);
                    let n = if mode % 2 == 0 && p < 5000 { (p + n % 3).saturating_sub(1) } else if p % (1 << 32) < 5000 && n % 3 == 0 { p % (1 << 32) } else { n };
                    Mismatch { shape, n, mode }
                }), mismatch),
            sub("ragged", 60_000, (prop::collection::vec(1usize..=4, 2..=5), 0usize..8, 0usize..100, any::<bool>(), any::<bool>())
                .prop_map(|(shape, level, pos, grow, compensate)| Ragged { shape, level, pos, grow, compensate }), ragged),
            sub("tensor_list", 40_000, (sshape(0, 6, 200), 1usize..=6, vals(&[IOTA]), prop::collection::vec(prov(), 1..=3), prop::option::weighted(0.4, (0usize..6, sshape(0, 4, 100))))
                .prop_map(|(shape, n, v, prov, odd)| List { shape, n, v, prov, odd }), list),
            sub("tensor_list_large", 400, (prop_oneof![1 => sshape(0, 5, 30), 1 => shape(0, 4, 3_000)], prop_oneof![1 => 1usize..=8, 1 => 20usize..=300], vals(&[IOTA]), prop::collection::vec(prov(), 1..=3), prop::option::weighted(0.2, (0usize..300, sshape(0, 4, 100))))
                .prop_map(|(shape, n, v, prov, odd)| List { shape, n, v, prov, odd }), list),
            sub("special", 8_000, data(prop_oneof![1usize..=20, 1usize..=200].prop_map(|n| vec![n]).boxed()), special),
            sub("merge", 20_000, (prop::collection::vec(ts(sshape(0, 3, 50), &[IOTA]), 1..=5), prop::collection::vec(1usize..=4, 1..=1)).prop_map(|(parts, cut)| Merge { parts, cut }), merge),
            sub("merge_many", 600, (prop_oneof![1 => Just(vec![]), 2 => sshape(0, 3, 12)], prop_oneof![2 => 6usize..=70, 1 => 70usize..=400], prop::collection::vec((0u32..100_000, prov(), prop::option::weighted(0.15, sshape(0, 3, 12))), 1..=6), prop::collection::vec(1usize..=4, 1..=1))
                .prop_map(|(shape, n, p, cut)| Merge { parts: (0..n).map(|k| { let (seed, prov, odd) = &p[k % p.len()]; TS { shape: odd.clone().unwrap_or(shape.clone()), v: V { kind: IOTA, seed: seed.wrapping_add(k as u32) }, prov: prov.clone() } }).collect(), cut }), merge),
        ],
    });
}
