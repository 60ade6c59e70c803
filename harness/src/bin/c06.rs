//! C06: an operation on a view equals the operation on an independent copy
use vharness::ops::*;
use vharness::prelude::*;
use vharness::with_type;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// rows [off, off + len) as fractions of the extent
    Rows { off: usize, len: usize },
    /// consecutive elements, shaped by the third number
    Flat { off: usize, len: usize, form: usize },
    Reshape { form: usize },
    Clone,
    /// piece of an equal or uneven split of axis 0
    Split { cut: usize, piece: usize },
    /// drop everything older than the current window
    Forget,
    // requests that must be refused
    BadRows { off: usize, len: usize },
    BadFlat { off: usize, len: usize },
    BadShape { off: usize, len: usize, form: usize, by: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Windows {
    ty: u8,
    t: TS,
    steps: Vec<Step>,
}

/// some factorisation of n into a shape
fn shapes_of(n: usize, form: usize) -> Vec<usize> {
    let mut s = vec![];
    let mut rest = n;
    let mut f = form;
    while s.len() < 5 && f > 0 {
        let d = 1 + f % 4;
        if d > 1 && rest % d == 0 {
            s.push(d);
            rest /= d;
        } else if f % 7 == 3 {
            s.push(1);
        }
        f /= 4;
    }
    s.push(rest);
    if n == 1 && form % 3 == 0 { vec![] } else { s }
}

/// numbers beyond a bound, up to those that overflow
fn beyond(bound: usize, raw: usize) -> usize {
    match raw % 8 {
        0 | 1 | 2 => bound + 1 + raw / 8 % 3,
        3 => bound * 2 + 1,
        4 => usize::MAX - raw / 8 % 4,
        5 => usize::MAX / 2 + 1,
        6 => (1usize << 32) + raw / 8 % 5,
        _ => bound + 1 + raw / 8 % 1000,
    }
}

fn windows<T: Elem>(c: &Windows, ctx: &mut Ctx) -> R {
    let b = c.t.build_strict::<T>();
    expect("the first window", &b.t, &b.m)?;
    let mut all: Vec<(Tensor<T>, M<T>)> = vec![(b.t.clone(), b.m.clone())];
    let mut keep = b.keep;
    let (mut t, mut m) = (b.t, b.m);
    let mut views = 0;
    for (k, s) in c.steps.iter().enumerate() {
        let n = m.data.len();
        let what = format!("step {} {:?} on a tensor of shape {:?}", k, s, m.shape);
        let dim0 = m.shape.first().copied().unwrap_or(0);
        let inner = if m.shape.is_empty() { 1 } else { size(&m.shape[1..]) };
        match *s {
            Step::Rows { off, len } if dim0 > 0 => {
                let off = off % dim0;
                let len = 1 + len % (dim0 - off);
                t = accepts(|| what.clone(), || t.subslice(off, len))?;
                m = m.range(0, off, off + len);
                views += 1;
            }
            Step::Flat { off, len, form } if n > 0 => {
                let off = off % n;
                let len = 1 + len % (n - off);
                let shape = shapes_of(len, form);
                t = accepts(|| what.clone(), || t.subslice_flat(off, len, shape.as_slice()))?;
                m = M::new(shape, m.data[off..off + len].to_vec());
                views += 1;
            }
            Step::Reshape { form } => {
                let shape = shapes_of(n, form);
                t = accepts(|| what.clone(), || t.clone().reshape(shape.as_slice()))?;
                m = m.reshape(shape);
            }
            Step::Clone => t = t.clone(),
            Step::Split { cut, piece } if dim0 > 1 => {
                let cut = 1 + cut % (dim0 - 1);
                let mut parts = accepts(|| what.clone(), || t.split_axis(0, vec![cut]))?;
                ensure!(parts.len() == 2, "{}: {} pieces", what, parts.len());
                let p = piece % 2;
                t = parts.remove(p);
                m = if p == 0 { m.range(0, 0, cut) } else { m.range(0, cut, dim0) };
                views += 1;
            }
            Step::Forget => {
                all.clear();
                keep.clear();
            }
            Step::BadRows { off, len } if dim0 > 0 => {
                // the end of the range, or its start, or both, lie outside
                let (o, l) = match len % 3 {
                    0 => (off % (dim0 + 1), beyond(dim0 - off % (dim0 + 1), len / 3)),
                    1 => (beyond(dim0, off), len / 3 % 3),
                    _ => (beyond(dim0, off), beyond(0, len / 3)),
                };
                let what2 = || format!("subslice({}, {}) of shape {:?}", o, l, m.shape);
                // an empty range has nothing outside, unless its start does
                if !(l == 0 && o <= dim0) {
                    rejects(what2, || t.subslice(o, l))?;
                    ctx.label("refused window");
                }
            }
            Step::BadFlat { off, len } => {
                let (o, l) = match len % 3 {
                    0 => (off % (n + 1), beyond(n - off % (n + 1), len / 3)),
                    1 => (beyond(n, off), 1 + len / 3 % 3),
                    _ => (beyond(n, off), beyond(0, len / 3)),
                };
                rejects(|| format!("subslice_flat({}, {}) of {} elements", o, l, n), || t.subslice_flat(o, l, [l]))?;
                ctx.label("refused window");
            }
            Step::BadShape { off, len, form, by } if n > 0 => {
                let off = off % n;
                let len = 1 + len % (n - off);
                let mut shape = shapes_of(len, form);
                if shape.is_empty() {
                    shape.push(2);
                } else {
                    let j = by % shape.len();
                    if by % 2 == 0 || shape[j] == 1 { shape[j] += 1 + by / 7 % 3 } else { shape[j] -= 1 }
                }
                rejects(|| format!("subslice_flat({}, {}, {:?})", off, len, shape), || t.subslice_flat(off, len, shape.as_slice()))?;
                rejects(|| format!("reshape of {} elements to {:?}", n, shape_for(n, &shape)), || t.clone().reshape(shape_for(n, &shape).as_slice()))?;
                ctx.label("refused shape");
            }
            _ => continue,
        }
        expect(&what, &t, &m)?;
        // reading through the window
        let _ = inner;
        for i in 0..m.data.len().min(6) {
            ensure!(t[i].same(&m.data[i]), "{}: element {} read by index", what, i);
            ensure!(t.get(i).map_or(false, |v| v.same(&m.data[i])), "{}: element {} read by get", what, i);
        }
        ensure!(t.get(m.data.len()).is_none(), "{}: get past the end", what);
        all.push((t.clone(), m.clone()));
        // older windows show what they did
        for (t, m) in &all {
            expect("an older window", t, m)?;
        }
    }
    ctx.nt(views > 0);
    ctx.label_if(views > 1, "window of a window");
    ctx.label_if(t.offset() > 0, "offset");
    Ok(())
}

/// a shape of another size than n
fn shape_for(n: usize, s: &[usize]) -> Vec<usize> {
    let mut s = s.to_vec();
    if size(&s) == n {
        s.push(2);
    }
    if s.len() > 6 { vec![n + 1] } else { s }
}

fn step() -> BoxedStrategy<Step> {
    let n = || 0usize..5000;
    prop_oneof![
        4 => (n(), n()).prop_map(|(off, len)| Step::Rows { off, len }),
        4 => (n(), n(), n()).prop_map(|(off, len, form)| Step::Flat { off, len, form }),
        2 => n().prop_map(|form| Step::Reshape { form }),
        1 => Just(Step::Clone),
        1 => (n(), n()).prop_map(|(cut, piece)| Step::Split { cut, piece }),
        1 => Just(Step::Forget),
        1 => (n(), n()).prop_map(|(off, len)| Step::BadRows { off, len }),
        1 => (n(), n()).prop_map(|(off, len)| Step::BadFlat { off, len }),
        1 => (n(), n(), n(), n()).prop_map(|(off, len, form, by)| Step::BadShape { off, len, form, by }),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    op: usize,
    args: ArgSpec,
    /// let one set of storage provide several operands
    share: u8,
}

/// all three operands as windows of one storage
fn shared<T: Elem>(v: &mut Vec<Tensor<T>>) {
    let mut data: Vec<T> = vec![T::make(IOTA, 9, 77); 3];
    let mut at = vec![];
    for t in v.iter() {
        at.push(data.len());
        data.extend(t.as_slice().iter().cloned());
    }
    data.push(T::make(IOTA, 9, 78));
    let n = data.len();
    let whole = Tensor::from_vec(data, [n]);
    for (t, o) in v.iter_mut().zip(at) {
        let shape = t.shape().clone();
        let n = t.size();
        *t = whole.subslice_flat(o, n, shape);
    }
}

fn differential(c: &Case, ctx: &mut Ctx) -> R {
    let mut views = c.args.build(true);
    if c.share % 4 == 0 {
        shared(&mut views.f);
        shared(&mut views.d);
        shared(&mut views.i);
        shared(&mut views.u);
        shared(&mut views.c);
        shared(&mut views.s);
        ctx.label("operands are windows of one storage");
    }
    let copies = c.args.build(false);
    let name = OPS[c.op % OPS.len()].0;
    let a = call(c.op, &views).map(|o| o.seen);
    let b = call(c.op, &copies).map(|o| o.seen);
    ctx.nt(b.is_some() && views.f.iter().any(|t| t.offset() > 0));
    ctx.label(name);
    if b.is_none() { ctx.label(&format!("refused: {}", name)); }
    ensure!(a == b, "{} with shapes {:?} on views: {}, on copies: {}", name, c.args.shapes(), describe(&a), describe(&b));
    Ok(())
}

/// every operand position on its own
fn one_view(c: &Case, ctx: &mut Ctx) -> R {
    let name = OPS[c.op % OPS.len()].0;
    let b = call(c.op, &c.args.build(false)).map(|o| o.seen);
    for k in 0..3 {
        let mut s = c.args.clone();
        for (j, p) in [&mut s.prov.0, &mut s.prov.1, &mut s.prov.2].into_iter().enumerate() {
            if j != k {
                *p = Prov::Fresh;
            }
        }
        let a = call(c.op, &s.build(true)).map(|o| o.seen);
        ensure!(a == b, "{} with shapes {:?}, operand {} a view: {}, copies: {}", name, c.args.shapes(), k, describe(&a), describe(&b));
    }
    ctx.nt(b.is_some());
    ctx.label(name);
    Ok(())
}

fn main() {
    let case = |s: BoxedStrategy<Vec<usize>>| (0..OPS.len(), arg_spec(s, view_prov), any::<u8>()).prop_map(|(op, args, share)| Case { op, args, share });
    vharness::fw::main(Prop {
        id: "C06",
        rule: "windows: a case is a chain of views of one parent, non-trivial when at least one window is taken; operations: a case is one operation of the catalogue on views and on copies, non-trivial when it is accepted and an operand has an offset",
        subs: vec![
            sub("empty", 3_000, vharness::empties::empty(), |c, ctx| vharness::empties::check("C06", c, ctx)),
            sub("windows", 12_000,
                (0u8..10, ts(mshape(0, 6, 3_000), &[IOTA, EXTREME]), prop::collection::vec(step(), 1..=8)).prop_map(|(ty, t, steps)| Windows { ty, t, steps }),
                |c, ctx| with_type!(c.ty, T => windows::<T>(c, ctx))),
            sub("operations", 40_000, case(sshape(0, 5, 400)), differential),
            sub("operations_large", 5_000, case(shape(1, 4, 12_000)), differential),
            sub("one_view", 8_000, case(sshape(0, 4, 200)), one_view),
        ],
    });
}
