//! The reference model: a list of dimensions (outermost first) and the
//! elements in row-major order, with operations defined by index arithmetic.
use crate::elem::Elem;
use crate::fw::R;
use essay_tensor::tensor::{Tensor, Type};
use std::fmt::Debug;

#[derive(Clone, Debug)]
pub struct M<T> {
    pub shape: Vec<usize>,
    pub data: Vec<T>,
}

pub fn size(shape: &[usize]) -> usize {
    shape.iter().product()
}

/// row-major offset
pub fn offset(shape: &[usize], idx: &[usize]) -> usize {
    let mut o = 0;
    for (d, i) in shape.iter().zip(idx) {
        o = o * d + i;
    }
    o
}

/// the index of a row-major offset
pub fn index(shape: &[usize], mut o: usize) -> Vec<usize> {
    let mut idx = vec![0; shape.len()];
    for k in (0..shape.len()).rev() {
        idx[k] = o % shape[k];
        o /= shape[k];
    }
    idx
}

pub fn indices(shape: &[usize]) -> impl Iterator<Item = Vec<usize>> + '_ {
    (0..size(shape)).map(move |o| index(shape, o))
}

impl<T: Clone> M<T> {
    pub fn new(shape: Vec<usize>, data: Vec<T>) -> Self {
        assert_eq!(size(&shape), data.len());
        M { shape, data }
    }
    pub fn scalar(v: T) -> Self {
        M { shape: vec![], data: vec![v] }
    }
    pub fn from_fn(shape: Vec<usize>, mut f: impl FnMut(&[usize]) -> T) -> Self {
        let data = indices(&shape).map(|i| f(&i)).collect();
        M { shape, data }
    }
    pub fn at(&self, idx: &[usize]) -> &T {
        &self.data[offset(&self.shape, idx)]
    }
    pub fn rank(&self) -> usize {
        self.shape.len()
    }
    pub fn map<U: Clone>(&self, f: impl FnMut(&T) -> U) -> M<U> {
        M { shape: self.shape.clone(), data: self.data.iter().map(f).collect() }
    }
    /// elements along `axis` for every remaining index
    pub fn groups(&self, axis: usize) -> (Vec<usize>, Vec<Vec<T>>) {
        let mut rest = self.shape.clone();
        rest.remove(axis);
        let groups = indices(&rest)
            .map(|i| {
                (0..self.shape[axis])
                    .map(|k| {
                        let mut j = i.clone();
                        j.insert(axis, k);
                        self.at(&j).clone()
                    })
                    .collect()
            })
            .collect();
        (rest, groups)
    }
    pub fn cols(&self) -> usize {
        *self.shape.last().unwrap_or(&0)
    }
    /// concatenation along an axis; None when the inputs disagree
    pub fn concat(list: &[M<T>], axis: usize) -> Option<M<T>> {
        let first = list.first()?;
        if axis >= first.rank() {
            return None;
        }
        let mut total = 0;
        for m in list {
            if m.rank() != first.rank() {
                return None;
            }
            for k in 0..m.rank() {
                if k != axis && m.shape[k] != first.shape[k] {
                    return None;
                }
            }
            total += m.shape[axis];
        }
        let mut shape = first.shape.clone();
        shape[axis] = total;
        Some(M::from_fn(shape, |idx| {
            let mut k = idx[axis];
            for m in list {
                if k < m.shape[axis] {
                    let mut j = idx.to_vec();
                    j[axis] = k;
                    return m.at(&j).clone();
                }
                k -= m.shape[axis];
            }
            unreachable!()
        }))
    }
    pub fn stack(list: &[M<T>], axis: usize) -> Option<M<T>> {
        let first = list.first()?;
        if list.iter().any(|m| m.shape != first.shape) || axis > first.rank() {
            return None;
        }
        let mut shape = first.shape.clone();
        shape.insert(axis, list.len());
        Some(M::from_fn(shape, |idx| {
            let mut j = idx.to_vec();
            let k = j.remove(axis);
            list[k].at(&j).clone()
        }))
    }
    /// the range [from, to) of an axis
    pub fn range(&self, axis: usize, from: usize, to: usize) -> M<T> {
        let mut shape = self.shape.clone();
        shape[axis] = to - from;
        M::from_fn(shape, |idx| {
            let mut j = idx.to_vec();
            j[axis] += from;
            self.at(&j).clone()
        })
    }
    pub fn reshape(&self, shape: Vec<usize>) -> M<T> {
        M::new(shape, self.data.clone())
    }
    pub fn transpose(&self) -> M<T> {
        if self.rank() == 1 {
            return self.reshape(vec![self.shape[0], 1]);
        }
        let n = self.rank();
        let mut shape = self.shape.clone();
        shape.swap(n - 1, n - 2);
        M::from_fn(shape, |idx| {
            let mut j = idx.to_vec();
            j.swap(n - 1, n - 2);
            self.at(&j).clone()
        })
    }
    pub fn tile(&self, mult: &[usize]) -> M<T> {
        let n = self.rank().max(mult.len());
        let mut s = vec![1; n - self.rank()];
        s.extend(&self.shape);
        let mut m = vec![1; n - mult.len()];
        m.extend(mult);
        let shape: Vec<usize> = s.iter().zip(&m).map(|(a, b)| a * b).collect();
        let src = self.reshape(s.clone());
        M::from_fn(shape, |idx| {
            let j: Vec<usize> = idx.iter().zip(&s).map(|(i, d)| i % d).collect();
            src.at(&j).clone()
        })
    }
}

/// is `a` a suffix of `b`?
pub fn is_suffix(a: &[usize], b: &[usize]) -> bool {
    a.len() <= b.len() && &b[b.len() - a.len()..] == a
}

/// result shape of broadcasting, None when the shapes do not conform
pub fn broadcast(shapes: &[&[usize]]) -> Option<Vec<usize>> {
    let big = shapes.iter().max_by_key(|s| s.len())?;
    for s in shapes {
        if !is_suffix(s, big) {
            return None;
        }
    }
    Some(big.to_vec())
}

impl<T: Clone> M<T> {
    /// element for an index of a larger shape
    pub fn tail_at(&self, idx: &[usize]) -> &T {
        self.at(&idx[idx.len() - self.rank()..])
    }
}

fn short<T: Debug>(v: &T) -> String {
    let mut s = format!("{:?}", v);
    if s.len() > 300 {
        let mut n = 300;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str("...");
    }
    s
}

/// the tensor must show exactly the model's shape and elements
pub fn expect<T: Elem>(what: &str, t: &Tensor<T>, m: &M<T>) -> R {
    expect_by(what, t, m, |a, b| a.same(b))
}

pub fn expect_by<T: Type + Debug, U: Debug>(what: &str, t: &Tensor<T>, m: &M<U>, same: impl Fn(&T, &U) -> bool) -> R {
    let shape = t.shape().as_vec();
    if shape != m.shape {
        return Err(format!("{}: shape {:?}, expected {:?}", what, shape, m.shape));
    }
    if t.size() != m.data.len() || t.as_slice().len() != m.data.len() || t.rank() != m.shape.len() {
        return Err(format!("{}: size {} (slice {}), expected {}", what, t.size(), t.as_slice().len(), m.data.len()));
    }
    let s = t.as_slice();
    for i in 0..s.len() {
        if !same(&s[i], &m.data[i]) {
            return Err(format!(
                "{}: element {:?} (flat {}) of shape {:?} is {}, expected {}",
                what, index(&m.shape, i), i, m.shape, short(&s[i]), short(&m.data[i])
            ));
        }
    }
    Ok(())
}

/// read a tensor into a model without judging it
pub fn to_model<T: Type + Clone>(t: &Tensor<T>) -> M<T> {
    M { shape: t.shape().as_vec(), data: t.as_slice().to_vec() }
}
