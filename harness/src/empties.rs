//! Tensors with a dimension of zero: what each operation must make of them.
//! Where the crate takes them, the result has the shape the rule gives and no
//! element is invented; where it refuses them today, refusing stays allowed.
use crate::fw::{accepts, attempt, rejects, Ctx, R};
use crate::ensure;
use essay_tensor::array;
use essay_tensor::tensor::{Tensor, Type};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Empty {
    pub shape: Vec<usize>,
    pub how: u8,
    pub k: usize,
    pub axis: usize,
}

pub fn empty() -> BoxedStrategy<Empty> {
    (prop::collection::vec(prop_oneof![1 => Just(0usize), 1 => Just(1usize), 4 => 2usize..=4], 1..=5), 0usize..5, any::<u8>(), 0usize..1000, 0usize..60)
        .prop_map(|(mut shape, at, how, k, axis)| {
            if !shape.contains(&0) {
                let n = shape.len();
                shape[at % n] = 0;
            }
            Empty { shape, how, k, axis }
        })
        .boxed()
}

fn prod(s: &[usize]) -> usize {
    s.iter().product()
}

fn full(s: &[usize]) -> Tensor<f32> {
    Tensor::from_vec((0..prod(s)).map(|i| i as f32 + 1.).collect(), s)
}

impl Empty {
    pub fn build(&self) -> Option<Tensor<f32>> {
        let s = self.shape.as_slice();
        attempt(|| match self.how % 4 {
            0 => Tensor::from_vec(vec![], s),
            1 => Tensor::<f32>::from(Vec::<f32>::new()).reshape(s),
            2 => Tensor::from(vec![5f32, 6., 7.]).subslice_flat(self.how as usize / 4 % 4, 0, s),
            _ => Tensor::<f32>::zeros(s),
        })
    }
}

fn is<T: Type>(what: &str, s: &[usize], t: &Tensor<T>, want: &[usize]) -> R {
    ensure!(t.shape().as_vec() == want, "{} on {:?}: shape {:?}, expected {:?}", what, s, t.shape().as_vec(), want);
    ensure!(t.as_slice().len() == prod(want) && t.size() == prod(want), "{} on {:?}: {} elements in shape {:?}", what, s, t.as_slice().len(), want);
    Ok(())
}

/// accepted with this shape
fn must(what: &str, s: &[usize], want: &[usize], f: impl FnOnce() -> Tensor<f32>) -> R {
    is(what, s, &accepts(|| format!("{} on {:?}", what, s), f)?, want)
}

/// refused, or accepted with this shape
fn may(what: &str, s: &[usize], want: &[usize], f: impl FnOnce() -> Tensor<f32>) -> R {
    match attempt(f) {
        None => Ok(()),
        Some(t) => is(what, s, &t, want),
    }
}

pub fn check(id: &str, c: &Empty, ctx: &mut Ctx) -> R {
    let s = c.shape.as_slice();
    let n = s.len();
    let Some(t) = c.build() else { return Ok(()) };
    ctx.nt(true);
    ctx.label(&format!("rank {}", n));
    is("building", s, &t, s)?;
    let a = c.axis % n;
    match id {
        "C04" => {
            ensure!(t.get(0).is_none() && t.get(c.k).is_none(), "get({}) of {:?} gives an element", c.k, s);
            ensure!(t.iter().count() == 0 && (&t).into_iter().count() == 0, "iterating {:?} gives elements", s);
            rejects(|| format!("[0] of {:?}", s), || t[0])?;
            let text = accepts(|| format!("printing {:?}", s), || format!("{:?}", t))?;
            ensure!(!text.chars().any(|ch| ch == '.'), "{:?} prints as {}", s, text);
        }
        "C05" => {
            must("flatten", s, &[0], || t.clone().flatten())?;
            let mut r = s.to_vec();
            r.reverse();
            must("reshape", s, &r, || t.clone().reshape(r.as_slice()))?;
            must("reshape", s, &[2, 0], || t.clone().reshape([2, 0]))?;
            rejects(|| format!("reshape of {:?} to one element", s), || t.clone().reshape([1]))?;
            rejects(|| format!("reshape of {:?} to a scalar", s), || t.clone().reshape([] as [usize; 0]))?;
            let sq: Vec<usize> = s.iter().cloned().filter(|d| *d != 1).collect();
            must("squeeze", s, &sq, || t.clone().squeeze())?;
            let mut e = s.to_vec();
            e.insert(a, 1);
            may("expand_dims", s, &e, || t.clone().expand_dims(a as isize))?;
        }
        "C06" => {
            must("subslice_flat", s, &[0], || t.subslice_flat(0, 0, [0usize]))?;
            rejects(|| format!("a window of one element in {:?}", s), || t.subslice_flat(0, 1, [1usize]))?;
            rejects(|| format!("a window that starts at one in {:?}", s), || t.subslice_flat(1, 0, [0usize]))?;
            let mut w = s.to_vec();
            w[0] = 0;
            may("subslice", s, &w, || t.subslice(0, 0))?;
            if s[0] > 1 {
                w[0] = 1;
                may("subslice", s, &w, || t.subslice(1, 1))?;
            }
        }
        "C07" => {
            must("map", s, s, || t.map(|x| x + 1.))?;
            must("+ itself", s, s, || &t + &t)?;
            must("+ scalar", s, s, || &t + 1.)?;
            must("scalar -", s, s, || 1. - &t)?;
            must("owned * owned", s, s, || t.clone() * t.clone())?;
            must("-", s, s, || -&t)?;
            must("exp", s, s, || t.exp())?;
            let mut calls = 0;
            let _ = t.map(|x| { calls += 1; *x });
            ensure!(calls == 0, "map of {:?} calls its function {} times", s, calls);
        }
        "C08" => {
            for k in 0..=n {
                let u = full(&s[n - k..]);
                let (x, y) = (must("+ suffix", s, s, || &t + &u), must("suffix +", s, s, || &u + &t));
                // a suffix with elements under a tensor with none
                x?;
                y?;
            }
            let mut o = s.to_vec();
            o[n - 1] += 1 + c.k % 3;
            if prod(&o) > 1 {
                rejects(|| format!("{:?} + {:?}", s, o), || &t + &full(&o))?;
            }
        }
        "C09" => {
            let r = accepts(|| format!("fold of {:?}", s), || t.fold(3f32, |x, y| x + y))?;
            is("fold", s, &r, &[])?;
            ensure!(r.as_slice() == [3.], "fold of {:?} starting at 3 gives {:?}", s, r.as_slice());
            let mut o = s.to_vec();
            o.remove(a);
            let f = attempt(|| t.fold_axis(a as isize, 3f32, |x, y| x + y));
            ensure!(f.is_some() || !(s[a] == 0 && prod(&o) > 0), "fold along axis {} of {:?} is refused", a, s);
            if let Some(f) = f {
                is("fold_axis", s, &f, &o)?;
                ensure!(f.as_slice().iter().all(|x| *x == 3.), "fold along axis {} of {:?} starting at 3 gives {:?}", a, s, f.as_slice());
            }
            // there is nothing to reduce
            rejects(|| format!("reduce of {:?}", s), || t.reduce(|x, y| x.max(y)))?;
        }
        "C11" => {
            let mut o = s.to_vec();
            o.push(2);
            if n < 6 {
                must("map_expand", s, &o, || t.map_expand(|x| [*x, 1.]))?;
            }
            o.remove(n - 1);
            may("map_row", s, &o, || t.map_row(|_| [1., 2.]))?;
            let mut calls = 0;
            must("init", s, s, || Tensor::init(s, || { calls += 1; 1. }))?;
            must("init_rindexed", s, s, || Tensor::init_rindexed(s, |_| { calls += 1; 1. }))?;
            ensure!(calls == 0, "initialising {:?} calls its function {} times", s, calls);
        }
        "C12" => {
            let mut o = s.to_vec();
            o[0] = 1 + c.k % 3;
            if prod(&o) > 0 {
                let u = full(&o);
                for (what, list) in [("concatenating none and some", vec![t.clone(), u.clone()]), ("concatenating some and none", vec![u.clone(), t.clone(), t.clone()])] {
                    let r = accepts(|| format!("{} of {:?}", what, s), || array::concatenate(list))?;
                    is(what, s, &r, &o)?;
                    ensure!(r.as_slice() == u.as_slice(), "{} rows like {:?}: {:?}, expected {:?}", what, s, r.as_slice(), u.as_slice());
                }
                let r = accepts(|| format!("appending to {:?}", s), || t.append(&u))?;
                is("append", s, &r, &o)?;
                ensure!(r.as_slice() == u.as_slice(), "appending to {:?} gives {:?}", s, r.as_slice());
            }
            let mut d = s.to_vec();
            d[a] *= 2;
            must("concatenating twice", s, &d, || array::concatenate_axis(a as isize, vec![t.clone(), t.clone()]))?;
            if n < 6 {
                let mut d = s.to_vec();
                d.insert(a, 2);
                may("stacking twice", s, &d, || array::stack_axis(a as isize, vec![t.clone(), t.clone()]))?;
            }
        }
        "C13" => {
            let cut = c.k % (s[a] + 1);
            if let Some(p) = attempt(|| t.split_axis(a as isize, vec![cut])) {
                let mut at = 0;
                for x in &p {
                    let mut w = s.to_vec();
                    w[a] = x.shape().as_vec().get(a).cloned().unwrap_or(0);
                    is("split", s, x, &w)?;
                    at += w[a];
                }
                ensure!(at == s[a], "split of {:?} along {} gives {} in all", s, a, at);
            }
        }
        "C14" => {
            let mut o = s.to_vec();
            if n == 1 {
                o.push(1);
            } else {
                o.swap(n - 1, n - 2);
            }
            must("transpose", s, &o, || t.transpose())?;
            let mut o = s.to_vec();
            o[n - 1] *= 2;
            may("tile", s, &o, || t.tile([2]))?;
        }
        "C15" => {
            must("zeros", s, s, || Tensor::<f32>::zeros(s))?;
            must("ones", s, s, || Tensor::<f32>::ones(s))?;
            must("fill", s, s, || Tensor::fill(s, 7f32))?;
            may("tril", s, s, || t.tril())?;
        }
        _ => {}
    }
    Ok(())
}
