//! C05: shape algebra and reshaping follow the list-of-dimensions model
use vharness::prelude::*;
use vharness::with_type;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Replace(usize, usize),
    RReplace(usize, usize),
    WithDim(usize, usize),
    WithCols(usize),
    WithRows(usize),
    Push(usize),
    Append(Vec<usize>),
    ExpandDims(isize),
    Squeeze,
    SqueezeAxis(isize),
    Pop,
    Remove(usize),
    RRemove(usize),
    Reduce,
    Insert(usize, usize),
    RInsert(usize, usize),
    Clone,
}

const LIM: usize = u32::MAX as usize;

/// the same edit on the list; None when it does not fit; Err(()) when outside the property
fn edit(d: &[usize], op: &Op) -> Result<Option<Vec<usize>>, ()> {
    let n = d.len();
    let mut v = d.to_vec();
    let ok = |b: bool, v: Vec<usize>| Ok(if b && v.len() <= 6 && v.iter().all(|x| *x <= LIM) { Some(v) } else { None });
    match op {
        Op::Replace(i, x) | Op::WithDim(i, x) => {
            if *i < n {
                v[*i] = *x;
            }
            ok(*i < n, v)
        }
        Op::RReplace(i, x) => {
            if *i < n {
                v[n - 1 - *i] = *x;
            }
            ok(*i < n, v)
        }
        Op::WithCols(x) => {
            if n == 0 {
                return Err(());
            }
            v[n - 1] = *x;
            ok(true, v)
        }
        Op::WithRows(x) => {
            if n > 1 {
                v[n - 2] = *x;
            }
            ok(n > 1, v)
        }
        Op::Push(x) => {
            v.insert(0, *x);
            ok(true, v)
        }
        Op::Append(t) => {
            for x in t {
                v.insert(0, *x);
            }
            ok(true, v)
        }
        Op::ExpandDims(a) => {
            if v.contains(&0) {
                return Err(());
            }
            let at = if *a < 0 { *a + n as isize + 1 } else { *a };
            if at < 0 || at > n as isize {
                return Ok(None);
            }
            v.insert(at as usize, 1);
            ok(true, v)
        }
        Op::Squeeze => {
            v.retain(|x| *x != 1);
            if v.is_empty() {
                v.push(1);
            }
            ok(true, v)
        }
        Op::SqueezeAxis(a) => {
            if n == 0 || *a < -(n as isize) || *a >= n as isize {
                return Err(());
            }
            let at = if *a < 0 { *a + n as isize } else { *a } as usize;
            if v[at] == 1 && n > 1 {
                v.remove(at);
            }
            ok(true, v)
        }
        Op::Pop => {
            if n > 0 {
                v.remove(0);
            }
            ok(n > 0, v)
        }
        Op::Remove(i) => {
            if *i < n {
                v.remove(*i);
            }
            ok(*i < n, v)
        }
        Op::RRemove(i) => {
            if *i < n {
                v.remove(n - 1 - *i);
            }
            ok(*i < n, v)
        }
        Op::Reduce => {
            if n == 0 {
                return Err(());
            }
            if n > 1 {
                v.pop();
            } else {
                v[0] = 1;
            }
            ok(true, v)
        }
        Op::Insert(i, x) => {
            if *i <= n {
                v.insert(*i, *x);
            }
            ok(*i <= n, v)
        }
        Op::RInsert(i, x) => {
            if *i <= n {
                v.insert(n - *i, *x);
            }
            ok(*i <= n, v)
        }
        Op::Clone => ok(true, v),
    }
}

fn apply(s: &Shape, op: &Op) -> Shape {
    match op {
        Op::Replace(i, x) => s.clone().replace(*i, *x),
        Op::WithDim(i, x) => s.clone().with_dim(*i, *x),
        Op::RReplace(i, x) => s.clone().rreplace(*i, *x),
        Op::WithCols(x) => s.clone().with_cols(*x),
        Op::WithRows(x) => s.clone().with_rows(*x),
        Op::Push(x) => s.push(*x),
        Op::Append(t) => s.append(t),
        Op::ExpandDims(a) => s.expand_dims(*a),
        Op::Squeeze => s.squeeze(None),
        Op::SqueezeAxis(a) => s.squeeze(*a),
        Op::Pop => s.pop(),
        Op::Remove(i) => s.clone().remove(*i),
        Op::RRemove(i) => s.clone().rremove(*i),
        Op::Reduce => s.clone().reduce(),
        Op::Insert(i, x) => s.clone().insert(*i, *x),
        Op::RInsert(i, x) => s.clone().rinsert(*i, *x),
        Op::Clone => s.clone(),
    }
}

fn prod(d: &[usize]) -> Option<usize> {
    // the running product, outermost last: what a checked multiplication of all factors gives
    d.iter().try_fold(1usize, |a, x| a.checked_mul(*x))
}

fn product(what: impl Fn() -> String, d: &[usize], f: impl Fn() -> usize) -> R {
    let exact = if d.contains(&0) { Some(0) } else { d.iter().fold(Some(1u128), |a, x| a.and_then(|a| a.checked_mul(*x as u128))) };
    match exact {
        Some(p) if p <= usize::MAX as u128 => {
            // with a zero among huge dimensions the order of the factors decides
            if p == 0 && prod(d).is_none() {
                return Ok(());
            }
            if p == 0 && d.iter().rev().try_fold(1usize, |a, x| a.checked_mul(*x)).is_none() {
                return Ok(());
            }
            let v = accepts(&what, f)?;
            ensure!(v as u128 == p, "{} is {}, expected {}", what(), v, p);
            Ok(())
        }
        _ => rejects(|| format!("{} of {:?}, which cannot be represented", what(), d), f),
    }
}

/// every observation of the shape agrees with the list
fn observe(s: &Shape, d: &[usize]) -> R {
    let n = d.len();
    ensure!(s.rank() == n, "rank {} expected {:?}", s.rank(), d);
    ensure!(s.as_vec() == d, "dimensions {:?} expected {:?}", s.as_vec(), d);
    for i in 0..n {
        ensure!(s.dim(i) == d[i], "dim({}) is {} in {:?}", i, s.dim(i), d);
        ensure!(s.rdim(n - 1 - i) == d[i], "rdim({}) is {} in {:?}", n - 1 - i, s.rdim(n - 1 - i), d);
        ensure!(s.idim(i as isize) == d[i], "idim({}) is {} in {:?}", i, s.idim(i as isize), d);
        let k = i as isize - n as isize;
        ensure!(s.idim(k) == d[i], "idim({}) is {} in {:?}", k, s.idim(k), d);
    }
    rejects(|| format!("dim({}) of {:?}", n, d), || s.dim(n))?;
    rejects(|| format!("dim({}) of {:?}", n + 3, d), || s.dim(n + 3))?;
    ensure!(s.cols() == *d.last().unwrap_or(&0), "cols {} of {:?}", s.cols(), d);
    ensure!(s.rows() == if n > 1 { d[n - 2] } else { 0 }, "rows {} of {:?}", s.rows(), d);
    if n > 0 {
        ensure!(s.len() == d[0], "len {} of {:?}", s.len(), d);
    }
    product(|| format!("size of {:?}", d), d, || s.size())?;
    for a in 0..=n {
        for b in a..=n {
            product(|| format!("sublen({}, {}) of {:?}", a, b, d), &d[a..b], || s.sublen(a, b))?;
            product(|| format!("rsublen({}, {}) of {:?}", a, b, d), &d[n - b..n - a], || s.rsublen(a, b))?;
        }
        product(|| format!("batch_len({}) of {:?}", a, d), &d[..n - a], || s.batch_len(a))?;
    }
    ensure!(s.batch_len(n + 1) == 1, "batch_len({}) of {:?}", n + 1, d);
    let again = Shape::from(d);
    ensure!(*s == again, "differs from a shape built from {:?}: {:?}", d, s);
    let text: Vec<String> = format!("{:?}", s).split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
    ensure!(text == d.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "debug shows {:?} for {:?}", s, d);
    for k in 0..n {
        let mut o = d.to_vec();
        o[k] = o[k] / 2 + 1;
        if o[k] != d[k] {
            ensure!(*s != Shape::from(o.as_slice()), "{:?} equals {:?}", d, o);
        }
    }
    if n > 0 {
        ensure!(*s != Shape::from(&d[1..]) && *s != Shape::from(&d[..n - 1]), "equal to a shape of smaller rank: {:?}", d);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    start: Vec<usize>,
    form: u8,
    ops: Vec<Op>,
}

fn from_form(d: &[usize], form: u8) -> Shape {
    match (form, d.len()) {
        (0, _) => Shape::from(d),
        (1, _) if !d.contains(&0) => Shape::from(d.to_vec()),
        (2, 0) => Shape::scalar(),
        (2, 1) => Shape::from(d[0]),
        (3, 1) if d[0] > 0 => Shape::vector(d[0]),
        (_, 0) => Shape::from([]),
        (_, 1) => Shape::from([d[0]]),
        (_, 2) => Shape::from([d[0], d[1]]),
        (_, 3) => Shape::from([d[0], d[1], d[2]]),
        (_, 4) => Shape::from([d[0], d[1], d[2], d[3]]),
        (_, 5) => Shape::from([d[0], d[1], d[2], d[3], d[4]]),
        (_, 6) => Shape::from([d[0], d[1], d[2], d[3], d[4], d[5]]),
        _ => Shape::from(d),
    }
}

fn history(c: &Hist, ctx: &mut Ctx) -> R {
    if c.start.iter().any(|d| *d > LIM) {
        ctx.nt(true);
        ctx.label("dimension over 32 bits");
        return rejects(|| format!("shape {:?}", c.start), || from_form(&c.start, c.form));
    }
    let mut d = c.start.clone();
    let mut s = from_form(&d, c.form);
    observe(&s, &d).map_err(|e| format!("from form {}: {}", c.form, e))?;
    for op in &c.ops {
        let before = s.clone();
        match edit(&d, op) {
            Err(()) => continue,
            Ok(Some(v)) => {
                let t = accepts(|| format!("{:?} on {:?}", op, d), || apply(&s, op))?;
                observe(&t, &v).map_err(|e| format!("{:?} on {:?}: {}", op, d, e))?;
                ensure!(s == before, "{:?} changed the shape it was applied to: {:?}", op, s);
                ctx.nt(true);
                ctx.label("edit");
                s = t;
                d = v;
            }
            Ok(None) => {
                ctx.label("edit that does not fit");
                ctx.nt(true);
                rejects(|| format!("{:?} on {:?}", op, d), || apply(&s, op))?;
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Re {
    Reshape(Vec<usize>),
    /// regroup: multiply neighbours together or split off a factor
    Regroup(usize, usize),
    Flatten,
    Expand(isize),
    ExpandNone,
    Squeeze,
    SqueezeAxis(isize),
    Wrong(Vec<usize>),
    Same,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RCase {
    ty: u8,
    t: TS,
    ops: Vec<Re>,
}

fn regroup(d: &[usize], at: usize, k: usize) -> Vec<usize> {
    let mut v = d.to_vec();
    if v.is_empty() {
        return vec![1];
    }
    let i = at % v.len();
    if k % 2 == 0 && i + 1 < v.len() {
        let x = v.remove(i + 1);
        v[i] *= x;
    } else if v.len() < 6 {
        let f = (2..=v[i].min(64)).filter(|f| v[i] % f == 0).nth(k % 3).unwrap_or(1);
        v[i] /= f;
        v.insert(i, f);
    }
    v
}

fn reshape<T: Elem>(c: &RCase, ctx: &mut Ctx) -> R {
    let b = c.t.build::<T>();
    let original = b.t.clone();
    let mut t = b.t.clone();
    let mut m = b.m.clone();
    for op in &c.ops {
        let d = m.shape.clone();
        let n = d.len() as isize;
        let t0 = t.clone();
        let (res, want): (Option<Tensor<T>>, Option<Vec<usize>>) = match op {
            Re::Reshape(v) => (attempt(|| t0.reshape(v.as_slice())), if prod(v) == Some(m.data.len()) { Some(v.clone()) } else { None }),
            Re::Regroup(a, k) => {
                let v = regroup(&d, *a, *k);
                let r = match k % 3 {
                    0 => attempt(|| t0.reshape(v.clone())),
                    1 => attempt(|| t0.reshape(v.as_slice())),
                    _ => attempt(|| t0.reshape(&Shape::from(v.as_slice()))),
                };
                (r, Some(v))
            }
            Re::Flatten => (attempt(|| t0.flatten()), Some(vec![m.data.len()])),
            Re::Expand(a) => (attempt(|| t0.expand_dims(*a)), edit(&d, &Op::ExpandDims(*a)).unwrap_or(None)),
            Re::ExpandNone => (attempt(|| t0.expand_dims(None)), edit(&d, &Op::ExpandDims(0)).unwrap_or(None)),
            Re::Squeeze => (attempt(|| t0.squeeze()), edit(&d, &Op::Squeeze).unwrap()),
            Re::SqueezeAxis(a) => {
                if n == 0 {
                    continue;
                }
                let a = a.rem_euclid(2 * n) - n;
                (attempt(|| t0.squeeze_axis(a)), edit(&d, &Op::SqueezeAxis(a)).unwrap())
            }
            Re::Wrong(v) => (attempt(|| t0.reshape(v.as_slice())), if prod(v) == Some(m.data.len()) && v.iter().all(|x| *x <= LIM) { Some(v.clone()) } else { None }),
            Re::Same => (attempt(|| t0.reshape(t.shape())), Some(d.clone())),
        };
        match (res, want) {
            (Some(r), Some(v)) => {
                m = m.reshape(v);
                expect(&format!("{:?} of {:?}", op, d), &r, &m)?;
                t = r;
                ctx.nt(true);
                ctx.label("accepted");
            }
            (None, None) => {
                ctx.nt(true);
                ctx.label("refused");
            }
            (Some(r), None) => return Err(format!("{:?} of {:?} accepted as {:?}", op, d, r.shape().as_vec())),
            (None, Some(v)) => return Err(format!("{:?} of {:?} refused, expected {:?}: {}", op, d, v, vharness::fw::last_panic())),
        }
    }
    expect("the original afterwards", &original, &b.m)
}

fn main() {
    let hdim = || prop_oneof![8 => 1usize..=5, 2 => dim(), 1 => Just(0usize), 1 => Just(65536usize), 1 => Just(65537usize), 1 => Just(LIM), 1 => Just(1usize << 31)];
    let over = || prop_oneof![60 => hdim(), 1 => Just(1usize << 32), 1 => Just((1usize << 32) + 3), 1 => Just(usize::MAX)];
    let ax = || prop_oneof![8 => 0usize..6, 1 => 6usize..9, 1 => Just(usize::MAX)];
    let op = prop_oneof![
        2 => (ax(), over()).prop_map(|(a, b)| Op::Replace(a, b)),
        2 => (ax(), over()).prop_map(|(a, b)| Op::RReplace(a, b)),
        1 => (ax(), over()).prop_map(|(a, b)| Op::WithDim(a, b)),
        1 => over().prop_map(Op::WithCols),
        1 => over().prop_map(Op::WithRows),
        2 => over().prop_map(Op::Push),
        2 => prop::collection::vec(over(), 0..=4).prop_map(Op::Append),
        3 => (-7isize..=7).prop_map(Op::ExpandDims),
        2 => Just(Op::Squeeze),
        3 => (-6isize..=5).prop_map(Op::SqueezeAxis),
        1 => Just(Op::Pop),
        3 => ax().prop_map(Op::Remove),
        3 => ax().prop_map(Op::RRemove),
        1 => Just(Op::Reduce),
        3 => (ax(), over()).prop_map(|(a, b)| Op::Insert(a, b)),
        3 => (ax(), over()).prop_map(|(a, b)| Op::RInsert(a, b)),
        1 => Just(Op::Clone),
    ];
    let wrong = prop_oneof![
        3 => prop::collection::vec(1usize..=6, 0..=6),
        1 => prop::collection::vec(prop_oneof![Just(1usize << 16), Just(1usize << 31), 1usize..=4, Just(LIM)], 2..=6),
    ];
    let re = prop_oneof![
        1 => prop::collection::vec(1usize..=6, 0..=4).prop_map(Re::Reshape),
        6 => (0usize..6, 0usize..30).prop_map(|(a, b)| Re::Regroup(a, b)),
        1 => Just(Re::Flatten),
        3 => (-7isize..=7).prop_map(Re::Expand),
        1 => Just(Re::ExpandNone),
        1 => Just(Re::Squeeze),
        3 => (0isize..24).prop_map(Re::SqueezeAxis),
        2 => wrong.prop_map(Re::Wrong),
        1 => Just(Re::Same),
    ].boxed();
    let re2 = re.clone();
    vharness::fw::main(Prop {
        id: "C05",
        rule: "a case is a starting list of dimensions (or tensor) and a sequence of edits; non-trivial: at least one edit was applied or had to be refused",
        subs: vec![
            sub("empty", 3_000, vharness::empties::empty(), |c, ctx| vharness::empties::check("C05", c, ctx)),
            sub("history", 60_000, (prop::collection::vec(over(), 0..=6), 0u8..5, prop::collection::vec(op, 1..=8)).prop_map(|(start, form, ops)| Hist { start, form, ops }), history),
            sub("reshape", 60_000, (0u8..10, ts(mshape(0, 6, 2000), &[IOTA, EXTREME]), prop::collection::vec(re, 1..=8)).prop_map(|(ty, t, ops)| RCase { ty, t, ops }),
                |c, ctx| with_type!(c.ty, T => reshape::<T>(c, ctx))),
            sub("reshape_large", 400, (0u8..6, ts(shape(1, 6, 100_000), &[IOTA]), prop::collection::vec(re2, 1..=6)).prop_map(|(ty, t, ops)| RCase { ty, t, ops }),
                |c, ctx| with_type!(c.ty, T => reshape::<T>(c, ctx))),
        ],
    });
}
