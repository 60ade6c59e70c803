//! C13: splitting cuts a tensor into the requested pieces; joining them restores it
use essay_tensor::array;
use vharness::prelude::*;
use vharness::with_type;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum How {
    Equal(usize),
    /// positions, taken modulo the length plus one and sorted
    Cuts(Vec<usize>),
    /// as `Cuts`, with one more cut this far behind the end
    Beyond(Vec<usize>, usize),
    Disorder(Vec<usize>, usize),
    Unstack,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    t: TS,
    axis: (usize, bool),
    how: How,
    form: u8,
}

fn case(cap: usize) -> BoxedStrategy<Case> {
    let cuts = || prop_oneof![4 => prop::collection::vec(0usize..1000, 0..=4), 1 => prop::collection::vec(0usize..100_000, 0..=12), 1 => prop::collection::vec(0usize..100_000, 10..=80)];
    let how = prop_oneof![
        4 => prop_oneof![4 => 1usize..=6, 1 => 1usize..=40, 1 => 1usize..=400, 1 => Just(0usize)].prop_map(How::Equal),
        5 => cuts().prop_map(How::Cuts),
        1 => (cuts(), prop_oneof![4 => 1usize..4, 1 => 1usize..200]).prop_map(|(c, e)| How::Beyond(c, e)),
        1 => (prop::collection::vec(0usize..1000, 2..=5), 0usize..5).prop_map(|(c, x)| How::Disorder(c, x)),
        3 => Just(How::Unstack),
    ];
    (0u8..10, ts(mshape(1, 6, cap), &[IOTA, EXTREME]), (0usize..60, any::<bool>()), how, any::<u8>(), 1usize..=4, 0u8..3)
        .prop_map(|(ty, mut t, axis, how, form, m, pick)| {
            // make an equal division likely
            if let (How::Equal(n), true) = (&how, pick != 0) {
                let k = axis.0 % t.shape.len();
                if *n > 0 && size(&t.shape) / t.shape[k] * n * m < 20_000 {
                    t.shape[k] = n * m;
                }
            }
            // long lists on long axes
            if let How::Cuts(v) | How::Beyond(v, _) = &how {
                let k = axis.0 % t.shape.len();
                if v.len() > 6 && pick != 0 && size(&t.shape) / t.shape[k] * v.len() * m < 20_000 {
                    t.shape[k] = v.len() * m;
                }
            }
            Case { ty, t, axis, how, form }
        })
        .boxed()
}

fn check<T: Elem>(c: &Case, ctx: &mut Ctx) -> R {
    let b = c.t.build::<T>();
    let (t, m) = (&b.t, &b.m);
    let (a, k) = axis_of(c.axis.0, c.axis.1, m.rank());
    let len = m.shape[k];
    ctx.nt(len > 1);
    ctx.label(&format!("rank {}", m.rank()));
    ctx.label_if(c.t.prov.is_view(), "view");
    ctx.label_if(k == 0, "axis 0");
    ctx.label_if(k > 0 && k + 1 == m.rank(), "innermost axis");
    let cuts_of = |v: &Vec<usize>| {
        let mut c: Vec<usize> = v.iter().map(|x| x % (len + 1)).collect();
        c.sort();
        c
    };
    match &c.how {
        How::Equal(n) => {
            let what = format!("{} equal sections along {} of {:?}", n, a, m.shape);
            if *n == 0 || len % n != 0 {
                ctx.label("unequal, refused");
                rejects(|| what.clone(), || t.split_axis(a, *n))?;
                if k == 0 {
                    rejects(|| what.clone(), || t.split(*n))?;
                }
                return Ok(());
            }
            ctx.label("equal");
            ctx.label_if(*n == 1, "one section");
            let w = len / n;
            let want: Vec<M<T>> = (0..*n).map(|i| m.range(k, i * w, (i + 1) * w)).collect();
            let mut got = vec![accepts(|| what.clone(), || t.split_axis(a, *n))?];
            if k == 0 {
                got.push(accepts(|| what.clone(), || t.split(*n))?);
                got.push(accepts(|| what.clone(), || t.vsplit(*n))?);
            } else if k == 1 {
                got.push(accepts(|| what.clone(), || t.hsplit(*n))?);
            } else if k == 2 {
                got.push(accepts(|| what.clone(), || t.dsplit(*n))?);
            }
            for g in &got {
                pieces(&what, g, &want)?;
            }
            restored(&what, got.pop().unwrap(), a, m)
        }
        How::Cuts(v) => {
            let cuts = cuts_of(v);
            let what = format!("cuts {:?} along {} of {:?}", cuts, a, m.shape);
            ctx.label("cuts");
            ctx.label_if(cuts.len() > 16, "more than 16 cuts");
            let mut want = vec![];
            let mut prev = 0;
            for e in cuts.iter().cloned().chain([len]) {
                if e > prev {
                    want.push(m.range(k, prev, e));
                }
                prev = e;
            }
            ctx.label_if(want.len() < cuts.len() + 1, "with an empty piece");
            let go = |f: u8| match f % 5 {
                0 => t.split_axis(a, cuts.clone()),
                1 => t.split_axis(a, &cuts),
                2 => t.split_axis(a, cuts.as_slice()),
                _ => match cuts.len() {
                    0 => t.split_axis(a, []),
                    1 => t.split_axis(a, [cuts[0]]),
                    2 => t.split_axis(a, [cuts[0], cuts[1]]),
                    3 => t.split_axis(a, [cuts[0], cuts[1], cuts[2]]),
                    _ => t.split_axis(a, cuts.clone()),
                },
            };
            let mut got = vec![accepts(|| what.clone(), || go(c.form))?];
            if k == 0 {
                got.push(accepts(|| what.clone(), || t.split(cuts.clone()))?);
                got.push(accepts(|| what.clone(), || t.vsplit(&cuts))?);
            } else if k == 1 {
                got.push(accepts(|| what.clone(), || t.hsplit(cuts.as_slice()))?);
            } else if k == 2 {
                got.push(accepts(|| what.clone(), || t.dsplit(cuts.clone()))?);
            }
            for g in &got {
                pieces(&what, g, &want)?;
            }
            restored(&what, got.pop().unwrap(), a, m)
        }
        How::Beyond(v, e) => {
            let mut cuts = cuts_of(v);
            cuts.push(len + e);
            ctx.label("beyond the end, refused");
            rejects(|| format!("cuts {:?} along {} of {:?}", cuts, a, m.shape), || t.split_axis(a, cuts.clone()))
        }
        How::Disorder(v, x) => {
            // a position before its predecessor: refused, or the pieces still make up the tensor
            let mut cuts: Vec<usize> = v.iter().map(|x| x % (len + 1)).collect();
            let (i, n) = (x % cuts.len(), cuts.len());
            cuts.swap(i, (i + 1) % n);
            if cuts.windows(2).all(|w| w[0] <= w[1]) {
                cuts.reverse();
            }
            let what = format!("cuts {:?} along {} of {:?}", cuts, a, m.shape);
            let mut got = vec![attempt(|| t.split_axis(a, cuts.clone()))];
            if k == 0 {
                got.push(attempt(|| t.vsplit(cuts.clone())));
            } else if k == 1 {
                got.push(attempt(|| t.hsplit(cuts.clone())));
            } else if k == 2 {
                got.push(attempt(|| t.dsplit(cuts.clone())));
            }
            ctx.label(if got[0].is_some() { "decreasing cuts, accepted" } else { "decreasing cuts, refused" });
            for g in got.into_iter().flatten() {
                restored(&what, g, a, m)?;
            }
            Ok(())
        }
        How::Unstack => {
            ctx.label("unstack");
            let what = format!("unstack({}) of {:?}", a, m.shape);
            let mut rest = m.shape.clone();
            rest.remove(k);
            let want: Vec<M<T>> = (0..len).map(|i| m.range(k, i, i + 1).reshape(rest.clone())).collect();
            let got = accepts(|| what.clone(), || t.unstack(a))?;
            pieces(&what, &got, &want)?;
            let back = accepts(|| format!("stacking the pieces of {}", what), || array::stack_axis(a, got))?;
            expect(&format!("stacking the pieces of {}", what), &back, m)
        }
    }
}

fn pieces<T: Elem>(what: &str, got: &[Tensor<T>], want: &[M<T>]) -> R {
    ensure!(got.len() == want.len(), "{}: {} pieces, expected {}", what, got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        expect(&format!("piece {} of {}", i, what), g, w)?;
    }
    Ok(())
}

fn restored<T: Elem>(what: &str, got: Vec<Tensor<T>>, a: isize, m: &M<T>) -> R {
    let back = accepts(|| format!("joining the pieces of {}", what), || array::concatenate_axis(a, got))?;
    expect(&format!("joining the pieces of {}", what), &back, m)
}

fn main() {
    vharness::fw::main(Prop {
        id: "C13",
        rule: "a case is a tensor, an axis and a way of cutting; non-trivial: the axis is longer than one",
        subs: vec![
            sub("empty", 3_000, vharness::empties::empty(), |c, ctx| vharness::empties::check("C13", c, ctx)),
            sub("split", 60_000, case(300), |c, ctx| with_type!(c.ty, T => check::<T>(c, ctx))),
            sub("split_large", 600, case(150_000), |c, ctx| check::<u32>(c, ctx)),
        ],
    });
}
