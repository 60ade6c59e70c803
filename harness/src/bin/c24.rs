//! C24: equality and ordering
use essay_tensor::array;
use std::cmp::Ordering;
use vharness::ops::{arg_spec, call, ArgSpec, OPS};
use vharness::prelude::*;
use vharness::with_type;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    ty: u8,
    a: TS,
    /// what distinguishes the second from the first
    rel: u8,
    at: usize,
    v: u32,
    prov: Prov,
    same_storage: bool,
}

/// the other tensor of the pair
fn other<T: Elem>(c: &Pair, a: &M<T>) -> M<T> {
    let mut m = a.clone();
    let n = m.data.len();
    let at = if c.at % 3 == 0 { n - 1 } else { c.at / 3 % n };
    match c.rel % 12 {
        0..=2 => {}
        // one element differs
        3 | 4 => m.data[at] = T::make(if c.v % 2 == 0 { EXTREME } else { SMALL }, c.v, at),
        // two of them, in opposite ways maybe
        5 => {
            m.data[at] = T::make(SMALL, c.v, at);
            m.data[c.v as usize % n] = T::make(SMALL, c.v ^ 99, at);
        }
        // the same elements in another shape
        6 => m.shape = vec![n],
        7 => m.shape.insert(c.at % (m.shape.len() + 1), 1),
        8 => m.shape.reverse(),
        9 => {
            let mut s = vec![];
            for d in &m.shape {
                if *d % 2 == 0 && s.len() < 2 && m.shape.len() < 5 {
                    s.extend([2, d / 2]);
                } else {
                    s.push(*d);
                }
            }
            m.shape = s;
        }
        // more or fewer rows
        10 => {
            if m.shape.is_empty() {
                m.shape = vec![2];
                m.data.push(T::make(SMALL, c.v, 0));
            } else {
                let inner = n / m.shape[0];
                m.shape[0] += 1;
                m.data.extend((0..inner).map(|i| T::make(SMALL, c.v, i)));
            }
        }
        _ => {
            if !m.shape.is_empty() && m.shape[0] > 1 {
                let inner = n / m.shape[0];
                m.shape[0] -= 1;
                m.data.truncate(n - inner);
            }
        }
    }
    if m.shape.len() > 6 {
        m.shape = vec![n];
    }
    m
}

fn two<T: Elem>(c: &Pair) -> (M<T>, M<T>, Tensor<T>, Tensor<T>, Vec<Tensor<T>>) {
    let b = c.a.build::<T>();
    let m = other(c, &b.m);
    // a second handle on the same elements, where that is what they are
    let shared = c.same_storage && m.data.len() == b.m.data.len() && m.data.iter().zip(&b.m.data).all(|(x, y)| x.same(y));
    let (u, mut keep) = if shared {
        (match attempt(|| if m.shape == b.m.shape { b.t.clone() } else { b.t.clone().reshape(m.shape.as_slice()) }) {
            Some(t) if to_model(&t).shape == m.shape => t,
            _ => Tensor::from_vec(m.data.clone(), m.shape.as_slice()),
        }, vec![])
    } else {
        place_or_fresh(&m, &c.prov, c.v)
    };
    keep.extend(b.keep);
    (b.m, m, b.t, u, keep)
}

fn labels<T: Elem>(ctx: &mut Ctx, a: &M<T>, b: &M<T>) {
    ctx.nt(true);
    ctx.label(&format!("rank {}", a.rank()));
    ctx.label_if(a.shape != b.shape && a.data.len() == b.data.len(), "shapes differ, sizes do not");
    ctx.label_if(a.data.len() != b.data.len(), "sizes differ");
    #[allow(clippy::eq_op)]
    let odd = a.data.iter().any(|x| x != x);
    ctx.label_if(odd, "an element unequal to itself");
}

fn eq<T: Elem>(c: &Pair, ctx: &mut Ctx) -> R {
    let (a, b, t, u, _keep) = two::<T>(c);
    labels(ctx, &a, &b);
    let want = a.shape == b.shape && a.data.iter().zip(&b.data).all(|(x, y)| x == y);
    ctx.label(if want { "equal" } else { "unequal" });
    let what = format!("{:?} and {:?} of shapes {:?} and {:?}", a.data.iter().take(8).collect::<Vec<_>>(), b.data.iter().take(8).collect::<Vec<_>>(), a.shape, b.shape);
    let got = accepts(|| what.clone(), || (t == u, u == t, t != u, u != t))?;
    ensure!(got == (want, want, !want, !want), "{}: ==, == swapped, !=, != swapped are {:?}", what, got);
    #[allow(clippy::eq_op)]
    let own = a.data.iter().all(|x| x == x);
    #[allow(clippy::eq_op)]
    let got = (t == t, t == t.clone(), t != t);
    ensure!(got == (own, own, !own), "{:?} of shape {:?}: == itself, == its clone, != itself are {:?}", a.data.iter().take(8).collect::<Vec<_>>(), a.shape, got);
    let again = Tensor::from_vec(t.as_slice().to_vec(), a.shape.as_slice());
    ensure!((t == again) == own && (again == t) == own, "{:?} of shape {:?} rebuilt from its elements is not equal to it", a.data.iter().take(8).collect::<Vec<_>>(), a.shape);
    Ok(())
}

fn ord<T: Elem + PartialOrd>(c: &Pair, ctx: &mut Ctx) -> R {
    let (a, b, t, u, _keep) = two::<T>(c);
    labels(ctx, &a, &b);
    let mut want = Some(Ordering::Equal);
    for (x, y) in a.data.iter().zip(&b.data) {
        let o = x.partial_cmp(y);
        if o != Some(Ordering::Equal) {
            want = o;
            break;
        }
    }
    if want == Some(Ordering::Equal) {
        want = Some(a.data.len().cmp(&b.data.len()));
    }
    if want == Some(Ordering::Equal) && a.shape != b.shape {
        // not equal, and neither comes first
        want = None;
    }
    ctx.label(match want {
        None => "unordered",
        Some(Ordering::Less) => "less",
        Some(Ordering::Greater) => "greater",
        _ => "equal",
    });
    let what = format!("{:?} and {:?} of shapes {:?} and {:?}", a.data.iter().take(8).collect::<Vec<_>>(), b.data.iter().take(8).collect::<Vec<_>>(), a.shape, b.shape);
    let (x, y) = accepts(|| what.clone(), || (t.partial_cmp(&u), u.partial_cmp(&t)))?;
    ensure!(x == want, "{} compare as {:?}, not {:?}", what, x, want);
    ensure!(y == want.map(|o| o.reverse()), "{} compare as {:?} one way and {:?} the other", what, x, y);
    let got = accepts(|| what.clone(), || (t < u, t <= u, t > u, t >= u))?;
    let less = want == Some(Ordering::Less);
    let more = want == Some(Ordering::Greater);
    let same = want == Some(Ordering::Equal);
    ensure!(got == (less, less || same, more, more || same), "{}: <, <=, >, >= are {:?}", what, got);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spots {
    t: TS,
    more: Vec<usize>,
    prov: Prov,
}

/// a single different element is noticed wherever it is
fn spots(c: &Spots, ctx: &mut Ctx) -> R {
    let b = c.t.build::<i32>();
    let n = b.m.data.len();
    ctx.nt(n > 1);
    ctx.label_if(n > 4096, "large");
    let edges = EDGES.iter().cloned().filter(|e| n <= 5_000 || *e >= 512);
    for (k, p) in edges.chain(c.more.iter().map(|p| p % n)).chain([0, n / 2, n / 4, n - 1, n.saturating_sub(2)]).filter(|p| *p < n).enumerate() {
        let mut m = b.m.clone();
        m.data[p] ^= 1 << (k % 31);
        let (u, _keep) = if k % 8 == 0 { place_or_fresh(&m, &c.prov, 5) } else { (Tensor::from_vec(m.data.clone(), m.shape.as_slice()), vec![]) };
        ensure!(b.t != u && u != b.t, "tensors of {} elements that differ at {} are equal", n, p);
        if k % 6 == 0 {
            let want = Some(b.m.data[p].cmp(&m.data[p]));
            let got = b.t.partial_cmp(&u);
            ensure!(got == want, "tensors of {} elements that differ at {} ({} and {}) compare as {:?}", n, p, b.m.data[p], m.data[p], got);
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Windows {
    shape: Vec<usize>,
    a: usize,
    by: usize,
    /// distance at which the elements repeat
    period: usize,
    spoil: Option<(usize, bool)>,
    other: u8,
}

/// two windows of one storage
fn windows<T: Elem + PartialOrd>(c: &Windows, ctx: &mut Ctx) -> R {
    let n = size(&c.shape);
    let mut d: Vec<T> = (0..c.a + c.by + n).map(|i| T::make(IOTA, 3, i % c.period)).collect();
    if let Some((p, _)) = c.spoil {
        let at = c.a + c.by + p % n;
        d[at] = T::make(IOTA, 77, at);
    }
    let s = Tensor::from_vec(d.clone(), [d.len()]);
    let mut shape = c.shape.clone();
    if c.other % 8 == 0 {
        shape.insert(0, 1);
        shape.truncate(6);
    }
    let n2 = size(&shape);
    let (ma, mb) = (M::new(c.shape.clone(), d[c.a..c.a + n].to_vec()), M::new(shape.clone(), d[c.a + c.by..c.a + c.by + n2].to_vec()));
    let (t, u) = match attempt(|| (s.subslice_flat(c.a, n, c.shape.as_slice()), s.subslice_flat(c.a + c.by, n2, shape.as_slice()))) {
        Some((t, u)) if expect("", &t, &ma).is_ok() && expect("", &u, &mb).is_ok() => (t, u),
        _ => return Ok(()),
    };
    let want = ma.shape == mb.shape && ma.data == mb.data;
    ctx.nt(c.by > 0);
    ctx.label(if want { "equal" } else { "unequal" });
    ctx.label_if(c.by < n && c.by > 0, "overlapping");
    let what = format!("windows of {:?} at {} and {} of one storage, {:?} and {:?}", c.shape, c.a, c.a + c.by, &ma.data[..n.min(6)], &mb.data[..n2.min(6)]);
    let got = accepts(|| what.clone(), || (t == u, u == t, t != u))?;
    ensure!(got == (want, want, !want), "{}: ==, == swapped, != are {:?}", what, got);
    let o = match ma.data.partial_cmp(&mb.data) {
        Some(Ordering::Equal) if ma.shape != mb.shape => None,
        o => o,
    };
    let got = accepts(|| what.clone(), || (t.partial_cmp(&u), u.partial_cmp(&t)))?;
    ensure!(got == (o, o.map(|o| o.reverse())), "{} compare as {:?}, not {:?}", what, got, o);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Journey {
    ty: u8,
    t: TS,
    steps: Vec<(u8, usize, usize)>,
}

/// There and back through rearrangements that lose nothing
fn journey<T: Elem>(c: &Journey, ctx: &mut Ctx) -> R {
    let b = c.t.build::<T>();
    let (t, m) = (&b.t, &b.m);
    #[allow(clippy::eq_op)]
    if m.data.iter().any(|x| x != x) {
        return Ok(());
    }
    let rank = m.rank();
    let n = m.data.len();
    let mut x = t.clone();
    let mut done = vec![];
    for (op, i, j) in &c.steps {
        let ax = i % rank.max(1);
        let name = match op % 11 {
            0 => "reshape and back",
            1 => "expand and squeeze",
            2 => "transpose twice",
            3 => "split and concatenate",
            4 => "unstack and stack",
            5 => "tile by one",
            6 => "map by clone",
            7 => "collect the elements",
            8 => "flatten and reshape",
            9 => "stack once and take the row",
            _ => "append and take the first rows",
        };
        let y = attempt(|| match op % 11 {
            0 => x.clone().reshape([n, 1]).reshape(m.shape.as_slice()),
            1 if rank < 6 && rank > 0 => {
                let e = x.clone().expand_dims((i % (rank + 1)) as isize);
                e.squeeze_axis((i % (rank + 1)) as isize)
            }
            2 if rank > 1 => x.transpose().transpose(),
            3 if rank > 0 => { let parts = x.split_axis(ax as isize, vec![j % m.shape[ax].max(1)].into_iter().filter(|k| *k > 0).collect::<Vec<_>>()); array::concatenate_axis(ax as isize, parts) }
            4 if rank > 1 => { let parts = x.unstack(ax as isize); array::stack_axis(ax as isize, parts) }
            5 if rank > 0 => x.tile([1]),
            6 => x.map(|v| v.clone()),
            7 => x.iter().cloned().collect::<Tensor<T>>().reshape(m.shape.as_slice()),
            8 => x.clone().flatten().reshape(m.shape.as_slice()),
            9 if rank < 6 => array::stack([x.clone(), x.clone()]).subslice(1, 1).reshape(m.shape.as_slice()),
            10 if rank > 0 => x.append(&x).subslice(0, m.shape[0]),
            _ => x.clone(),
        });
        // what the operations do is for other properties to say
        match y {
            Some(y) if { let k = to_model(&y); k.shape == m.shape && k.data.iter().zip(&m.data).all(|(p, q)| p.same(q)) } => {
                x = y;
                done.push(name);
            }
            _ => {}
        }
        ensure!(x == *t && *t == x && !(x != *t), "{:?} of shape {:?} is not equal to what {:?} made of it, element by element the same", m.data.iter().take(6).collect::<Vec<_>>(), m.shape, done);
        ensure!(x.shape() == t.shape(), "shape {:?} is not equal to itself after {:?}", m.shape, done);
    }
    for d in &done {
        ctx.label(d);
    }
    ctx.nt(!done.is_empty());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call {
    op: usize,
    args: ArgSpec,
}

fn again<T: Type + Clone + PartialEq + std::fmt::Debug>(name: &str, t: &Tensor<T>) -> R {
    #[allow(clippy::eq_op)]
    if t.as_slice().iter().any(|x| x != x) {
        return Ok(());
    }
    let s = t.shape().as_vec();
    let u = Tensor::from_vec(t.as_slice().to_vec(), s.as_slice());
    ensure!(*t == u && u == *t && t.shape() == u.shape(), "the result of {} of shape {:?} is not equal to a tensor of that shape and its elements", name, s);
    Ok(())
}

/// Whatever operation a tensor comes from, it equals one built from its parts
fn results(c: &Call, ctx: &mut Ctx) -> R {
    let a = c.args.build(true);
    let name = OPS[c.op % OPS.len()].0;
    let Some(o) = call(c.op, &a) else {
        ctx.label("refused");
        return Ok(());
    };
    ctx.nt(!(o.f.is_empty() && o.i.is_empty() && o.s.is_empty()));
    ctx.label(name);
    for t in &o.f {
        again(name, t)?;
    }
    for t in &o.i {
        again(name, t)?;
    }
    for t in &o.s {
        again(name, t)?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shapes {
    dims: Vec<usize>,
    steps: Vec<(u8, usize, usize)>,
}

/// A shape equals another exactly when rank and dimensions are the same
fn shapes(c: &Shapes, ctx: &mut Ctx) -> R {
    let mut s = Shape::from(c.dims.as_slice());
    let mut trail = vec![s.clone()];
    for (op, i, d) in &c.steps {
        let r = s.rank();
        let d = 1 + d % 5;
        let next = attempt(|| match op % 11 {
            0 if r > 1 => s.clone().remove(i % r),
            1 if r < 6 => s.clone().insert(i % (r + 1), d),
            2 if r > 0 => s.clone().replace(i % r, d),
            3 if r < 6 => s.push(d),
            4 if r > 1 => s.pop(),
            5 => s.squeeze(None),
            6 if r > 0 => s.squeeze(Axis::axis((i % r) as isize)),
            7 if r < 6 => s.expand_dims((i % (r + 1)) as isize),
            8 if r > 0 => s.clone().reduce(),
            9 if r < 5 => s.append(&[d, 2]),
            _ if r > 1 => s.clone().rremove(i % r),
            _ => s.clone(),
        });
        if let Some(n) = next {
            s = n;
        }
        trail.push(s.clone());
    }
    ctx.nt(trail.len() > 1);
    let vecs: Vec<Vec<usize>> = trail.iter().map(|s| s.as_vec()).collect();
    for (i, a) in trail.iter().enumerate() {
        let fresh = Shape::from(vecs[i].as_slice());
        ensure!(*a == fresh && fresh == *a && !(*a != fresh), "shape {:?} reached by {:?} from {:?} is not equal to a new one", vecs[i], &c.steps[..i], c.dims);
        for (j, b) in trail.iter().enumerate() {
            ensure!((a == b) == (vecs[i] == vecs[j]), "shapes {:?} and {:?} reached by {:?} from {:?}: equality is {}", vecs[i], vecs[j], c.steps, c.dims, a == b);
        }
    }
    Ok(())
}

macro_rules! ordered {
    ($n:expr, $T:ident => $body:expr) => {
        match $n % 8 {
            0 => { type $T = i32; $body }
            1 => { type $T = f32; $body }
            2 => { type $T = String; $body }
            3 => { type $T = u8; $body }
            4 => { type $T = f64; $body }
            5 => { type $T = bool; $body }
            6 => { type $T = i64; $body }
            _ => { type $T = f32; $body }
        }
    };
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Void {
    shape: Vec<usize>,
    rel: u8,
    at: usize,
    d: usize,
    how: u8,
}

/// tensors without elements: only their shapes can tell them apart
fn void(c: &Void, ctx: &mut Ctx) -> R {
    let a = c.shape.clone();
    let mut b = a.clone();
    let n = b.len();
    match c.rel % 8 {
        0 | 1 => {}
        2 => b.insert(0, 0),
        3 => b.insert(c.at % (n + 1), c.d),
        4 => {
            if n > 0 {
                b[c.at % n] = c.d;
            }
        }
        5 => {
            if n > 0 {
                b.remove(c.at % n);
            }
        }
        6 => b.reverse(),
        _ => b = vec![0],
    }
    if b.len() > 6 {
        b.truncate(6);
    }
    let make = |s: &[usize]| {
        let n: usize = s.iter().product();
        attempt(|| match c.how % 3 {
            0 => Tensor::<i32>::from_vec(vec![7; n], s),
            1 => Tensor::<i32>::from(vec![7; n]).reshape(s),
            _ => Tensor::<i32>::from(vec![7; n + 3]).subslice_flat(3, n, s),
        })
    };
    let (t, u) = match (make(&a), make(&b)) {
        (Some(t), Some(u)) => (t, u),
        _ => return Ok(()),
    };
    let (na, nb) = (a.iter().product::<usize>(), b.iter().product::<usize>());
    ctx.nt(na == 0);
    ctx.label(if a == b { "same" } else if na == nb { "shapes differ" } else { "sizes differ" });
    let got = accepts(|| format!("comparing {:?} with {:?}", a, b), || (t == u, u == t, t != u, t.partial_cmp(&u), u.partial_cmp(&t)))?;
    let e = a == b;
    let o = if e { Some(Ordering::Equal) } else if na == nb { None } else { Some(na.cmp(&nb)) };
    ensure!(got == (e, e, !e, o, o.map(|o| o.reverse())), "tensors of shapes {:?} and {:?}, {} and {} elements: ==, == swapped, !=, partial_cmp, swapped are {:?}", a, b, na, nb, got);
    Ok(())
}

fn main() {
    let pair = |s: BoxedStrategy<Vec<usize>>, kinds: &'static [u8]| (0u8..8, ts(s, kinds), any::<u8>(), prop_oneof![2 => 0usize..5000, 1 => 0usize..600_000, 2 => (0usize..EDGES.len(), 1usize..3).prop_map(|(i, r)| 3 * EDGES[i] + r)], any::<u32>(), prov(), any::<bool>())
        .prop_map(|(ty, a, rel, at, v, prov, same_storage)| Pair { ty, a, rel, at, v, prov, same_storage });
    let step = || (any::<u8>(), 0usize..60, 0usize..60);
    vharness::fw::main(Prop {
        id: "C24",
        rule: "pairs: two tensors that agree, or differ in one element, the shape or the size; journey and results: a tensor that has been through operations, non-trivial when one was accepted; shapes: a shape that has been through shape operations",
        subs: vec![
            sub("eq", 40_000, pair(mshape(0, 6, 300), &[SMALL, EXTREME, IOTA, CONST]), |c, ctx| match c.ty { 7 => eq::<Option<f64>>(c, ctx), n => with_type!(n, T => eq::<T>(c, ctx)) }),
            sub("eq_large", 1_000, pair(shape(1, 4, 150_000), &[SMALL, IOTA]), |c, ctx| match c.ty { 0 => eq::<u8>(c, ctx), 1..=3 => eq::<f32>(c, ctx), _ => eq::<i32>(c, ctx) }),
            sub("spots", 400, (ts(shape(1, 4, 80_000), &[SMALL, IOTA]), prop::collection::vec(0usize..100_000, 12), prov()).prop_map(|(t, more, prov)| Spots { t, more, prov }), spots),
            sub("windows", 20_000, (prop_oneof![3 => sshape(0, 6, 60), 1 => shape(1, 3, 300)], prop_oneof![2 => 0usize..4, 1 => 0usize..80, 1 => (0u32..11).prop_map(|k| 1 << k)], prop_oneof![3 => 0usize..12, 1 => 0usize..200, 3 => (0u32..12).prop_map(|k| 1 << k)], prop_oneof![2 => Just(0usize), 1 => 1usize..9], prop::option::weighted(0.5, (any::<usize>(), any::<bool>())), any::<u8>())
                .prop_map(|(shape, a, by, p, spoil, other)| Windows { shape, a, by, period: if p == 0 { by.max(1) } else { p }, spoil, other }),
                |c, ctx| match c.other / 8 % 3 { 0 => windows::<i32>(c, ctx), 1 => windows::<f32>(c, ctx), _ => windows::<String>(c, ctx) }),
            sub("empty", 10_000, (prop::collection::vec(prop_oneof![2 => Just(0usize), 1 => Just(1usize), 3 => 2usize..=4], 0..=6), any::<u8>(), 0usize..42, 0usize..4, any::<u8>())
                .prop_map(|(shape, rel, at, d, how)| Void { shape, rel, at, d, how }), void),
            sub("ord", 40_000, pair(mshape(0, 6, 300), &[SMALL, EXTREME, IOTA, CONST]), |c, ctx| ordered!(c.ty, T => ord::<T>(c, ctx))),
            sub("ord_large", 1_000, pair(shape(1, 4, 150_000), &[SMALL, IOTA]), |c, ctx| if c.ty < 4 { ord::<f32>(c, ctx) } else { ord::<i32>(c, ctx) }),
            sub("journey", 25_000, (0u8..10, ts(mshape(0, 6, 200), &[IOTA, SMALL, CONST]), prop::collection::vec(step(), 1..5)).prop_map(|(ty, t, steps)| Journey { ty, t, steps }),
                |c, ctx| with_type!(c.ty, T => journey::<T>(c, ctx))),
            sub("journey_large", 300, (0u8..6, ts(shape(1, 5, 60_000), &[IOTA, SMALL]), prop::collection::vec(step(), 1..5)).prop_map(|(ty, t, steps)| Journey { ty, t, steps }),
                |c, ctx| with_type!(c.ty, T => journey::<T>(c, ctx))),
            sub("results", 10_000, (0..OPS.len(), arg_spec(sshape(0, 5, 200), prov)).prop_map(|(op, args)| Call { op, args }), results),
            sub("shapes", 40_000, (sshape(0, 6, 1000), prop::collection::vec(step(), 1..8)).prop_map(|(dims, steps)| Shapes { dims, steps }), shapes),
        ],
    });
}
