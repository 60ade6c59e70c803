//! C12: concatenating and stacking place every input element at its own index
use essay_tensor::array;
use vharness::prelude::*;
use vharness::with_type;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Inp {
    len: usize,
    prov: Prov,
    /// use an earlier input again
    again: Option<usize>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    base: Vec<usize>,
    axis: (usize, bool),
    inputs: Vec<Inp>,
    v: V,
    form: u8,
    /// (input, dimension, change) that makes one input disagree
    wrong: Option<(usize, usize, u8)>,
}

fn case(min: usize, max: usize, cap: usize, many: usize) -> BoxedStrategy<Case> {
    let inp = (prop_oneof![6 => 1usize..=4, 2 => 1usize..=40, 1 => Just(1usize)], prov(), prop::option::weighted(0.1, 0usize..12))
        .prop_map(|(len, prov, again)| Inp { len, prov, again });
    (
        (0u8..10, mshape(min, max, cap)),
        (0usize..42, any::<bool>()),
        prop_oneof![8 => prop::collection::vec(inp.clone(), 1..=5), 1 => prop::collection::vec(inp, 1..=many)],
        vals(&[IOTA, EXTREME]),
        any::<u8>(),
        prop::option::weighted(0.25, (0usize..12, 0usize..6, any::<u8>())),
    )
        .prop_map(|((ty, base), axis, inputs, v, form, wrong)| Case { ty, base, axis, inputs, v, form, wrong })
        .boxed()
}

struct In<T: Elem> {
    t: Vec<Tensor<T>>,
    m: Vec<M<T>>,
    _keep: Vec<Tensor<T>>,
}

/// inputs whose dimension `axis` has the length of the input (None: all alike)
fn inputs<T: Elem>(c: &Case, axis: Option<usize>) -> In<T> {
    let mut t: Vec<Tensor<T>> = vec![];
    let mut m: Vec<M<T>> = vec![];
    let mut keep = vec![];
    for (k, i) in c.inputs.iter().enumerate() {
        if let Some(a) = i.again {
            if k > 0 && c.wrong.is_none() {
                t.push(t[a % k].clone());
                m.push(m[a % k].clone());
                continue;
            }
        }
        let mut s = c.base.clone();
        if let Some(a) = axis {
            s[a] = i.len;
        }
        let v = V { kind: c.v.kind, seed: c.v.seed + 31 * k as u32 };
        let n = size(&s);
        let mm = M::<T>::new(s, (0..n).map(|j| T::make(v.kind, v.seed, j + 1000 * k)).collect());
        let (tt, kk) = place_or_fresh(&mm, &i.prov, v.seed);
        t.push(tt);
        m.push(mm);
        keep.extend(kk);
    }
    if let Some(s) = siblings(&m.iter().collect::<Vec<_>>(), c.v.seed) {
        t = s;
    }
    In { t, m, _keep: keep }
}

/// replace one input by one that disagrees; true when it does
fn spoil<T: Elem>(c: &Case, x: &mut In<T>, free_axis: Option<usize>) -> bool {
    let Some((w, d, how)) = c.wrong else { return false };
    if x.t.len() < 2 {
        return false;
    }
    let w = w % x.t.len();
    let mut s = x.m[w].shape.clone();
    match how % 4 {
        0 if s.len() < 6 => s.insert(d % (s.len() + 1), 1),
        1 if s.len() > 1 => {
            let k = d % s.len();
            let a = s.remove(k);
            let last = s.len() - 1;
            s[k.min(last)] *= a;
        }
        2 if s.len() > 1 => {
            // the same number of elements, other dimensions
            let k = d % s.len();
            let l = (k + 1) % s.len();
            s.swap(k, l);
        }
        _ => {
            if s.is_empty() {
                s.push(1);
            } else {
                let k = d % s.len();
                s[k] += 1 + (how as usize / 4) % 2;
            }
        }
    }
    let agree = |a: &[usize], b: &[usize]| {
        a.len() == b.len() && (0..a.len()).all(|k| Some(k) == free_axis || a[k] == b[k])
    };
    if agree(&s, &x.m[(w + 1) % x.m.len()].shape) {
        return false;
    }
    let n = size(&s);
    x.m[w] = M::new(s.clone(), values(c.v, n));
    x.t[w] = Tensor::from_vec(x.m[w].data.clone(), s.as_slice());
    true
}


/// pass the list in one of its forms
fn through<T: Elem, O>(form: u8, list: &[Tensor<T>], f: &dyn Fn(Vec<Tensor<T>>) -> O, g: &Forms<T, O>) -> (String, O) {
    match form % 6 {
        0 => ("vector".into(), f(list.to_vec())),
        1 => ("vector of references".into(), (g.vref)(list.iter().collect())),
        2 => ("slice".into(), (g.slice)(list)),
        3 => ("slice of references".into(), (g.sref)(&list.iter().collect::<Vec<_>>())),
        k => {
            let n = list.len();
            if k == 4 && n <= 4 {
                ("array".into(), (g.array)(list))
            } else if n <= 10 {
                (format!("tuple of {}", n), (g.tuple)(list))
            } else {
                ("vector".into(), f(list.to_vec()))
            }
        }
    }
}

struct Forms<'a, T: Elem, O> {
    vref: &'a dyn Fn(Vec<&Tensor<T>>) -> O,
    slice: &'a dyn Fn(&[Tensor<T>]) -> O,
    sref: &'a dyn Fn(&[&Tensor<T>]) -> O,
    array: &'a dyn Fn(&[Tensor<T>]) -> O,
    tuple: &'a dyn Fn(&[Tensor<T>]) -> O,
}

macro_rules! forms {
    ($form:expr, $list:expr, $x:ident => $call:expr) => {
        through($form, $list, &|$x| $call, &Forms {
            vref: &|$x| $call,
            slice: &|$x| $call,
            sref: &|$x| $call,
            array: &|l| match l.len() {
                1 => { let $x = [l[0].clone()]; $call }
                2 if $form >= 128 => { let $x = [&l[0], &l[1]]; $call }
                2 => { let $x = [l[0].clone(), l[1].clone()]; $call }
                3 => { let $x = [&l[0], &l[1], &l[2]]; $call }
                _ => { let $x = [l[0].clone(), l[1].clone(), l[2].clone(), l[3].clone()]; $call }
            },
            tuple: &|l| match l.len() {
                1 => { let $x = (&l[0],); $call }
                2 => { let $x = (&l[0], l[1].clone()); $call }
                3 => { let $x = (l[0].clone(), &l[1], &l[2]); $call }
                4 => { let $x = (&l[0], &l[1], &l[2], &l[3]); $call }
                5 => { let $x = (&l[0], &l[1], &l[2], &l[3], &l[4]); $call }
                6 => { let $x = (&l[0], &l[1], &l[2], &l[3], &l[4], &l[5]); $call }
                7 => { let $x = (&l[0], &l[1], &l[2], &l[3], &l[4], &l[5], &l[6]); $call }
                8 => { let $x = (&l[0], &l[1], &l[2], &l[3], &l[4], &l[5], &l[6], &l[7]); $call }
                9 => { let $x = (&l[0], &l[1], &l[2], &l[3], &l[4], &l[5], &l[6], &l[7], &l[8]); $call }
                _ => { let $x = (&l[0], &l[1], &l[2], &l[3], &l[4], &l[5], &l[6], &l[7], &l[8], &l[9]); $call }
            },
        })
    };
}

fn note<T: Elem>(c: &Case, x: &In<T>, ctx: &mut Ctx) {
    ctx.nt(x.t.len() > 1 && x.m.iter().any(|m| m.data.len() > 1));
    ctx.label(&format!("rank {}", c.base.len()));
    ctx.label_if(x.t.len() == 1, "a single input");
    ctx.label_if(x.t.len() > 10, "more than ten inputs");
    ctx.label_if(c.inputs.iter().any(|i| i.prov.is_view()), "with a view");
    ctx.label_if(c.inputs.iter().any(|i| i.again.is_some()), "with a repeated input");
}

fn shapes<T>(m: &[M<T>]) -> Vec<Vec<usize>> {
    m.iter().map(|m| m.shape.clone()).collect()
}

fn concat<T: Elem>(c: &Case, ctx: &mut Ctx) -> R {
    let (a, k) = axis_of(c.axis.0, c.axis.1, c.base.len());
    let mut x = inputs::<T>(c, Some(k));
    note(c, &x, ctx);
    let what = format!("axis {}", a);
    if spoil(c, &mut x, Some(k)) {
        ctx.label("refused");
        let sh = shapes(&x.m);
        rejects(|| format!("concatenate_axis({}) of {:?}", a, sh), || forms!(c.form, &x.t, l => array::concatenate_axis(a, l)).1)?;
        rejects(|| format!("method concatenate_axis({}) of {:?}", a, sh), || x.t[0].concatenate_axis(a, x.t[1..].to_vec()))?;
        if k == 0 {
            rejects(|| format!("concatenate of {:?}", sh), || array::concatenate(x.t.clone()))?;
            rejects(|| format!("method concatenate of {:?}", sh), || x.t[0].concatenate(&x.t[1..]))?;
            if x.t.len() == 2 {
                rejects(|| format!("append of {:?}", sh), || x.t[0].append(&x.t[1]))?;
            }
        }
        return Ok(());
    }
    let sh = shapes(&x.m);
    let Some(want) = M::concat(&x.m, k) else { return Ok(()) };
    let (form, got) = accepts(|| format!("concatenate_axis({}) of {:?}", a, sh), || forms!(c.form, &x.t, l => array::concatenate_axis(a, l)))?;
    ctx.label(&form);
    expect(&format!("concatenate_axis {} of {:?} as {}", what, sh, form), &got, &want)?;
    let got = accepts(|| format!("method concatenate_axis({}) of {:?}", a, sh), || forms!(c.form / 6, &x.t[1..], l => x.t[0].concatenate_axis(a, l)).1);
    if x.t.len() > 1 {
        expect(&format!("method concatenate_axis {} of {:?}", what, sh), &got?, &want)?;
    }
    if k == 0 {
        ctx.label("axis 0");
        let (form, got) = accepts(|| format!("concatenate of {:?}", sh), || forms!(c.form, &x.t, l => array::concatenate(l)))?;
        expect(&format!("concatenate of {:?} as {}", sh, form), &got, &want)?;
        expect("method concatenate", &accepts(|| format!("method concatenate of {:?}", sh), || x.t[0].concatenate(&x.t[1..]))?, &want)?;
        if x.t.len() == 2 {
            expect("append", &accepts(|| format!("append of {:?}", sh), || x.t[0].append(&x.t[1]))?, &want)?;
        }
        let merged = accepts(|| format!("from_merge of {:?}", sh), || Tensor::from_merge(&x.t, want.shape.as_slice()))?;
        expect("from_merge", &merged, &want)?;
        let flat = want.reshape(vec![want.data.len()]);
        expect("from_merge flat", &Tensor::from_merge(&x.t, [flat.data.len()]), &flat)?;
        let mut other = want.shape.clone();
        other[0] += 1;
        rejects(|| format!("from_merge of {:?} to {:?}", sh, other), || Tensor::from_merge(&x.t, other.as_slice()))?;
    }
    if k == if c.base.len() == 1 { 0 } else { 1 } {
        ctx.label("hstack");
        let (form, got) = accepts(|| format!("hstack of {:?}", sh), || forms!(c.form, &x.t, l => array::hstack(l)))?;
        expect(&format!("hstack of {:?} as {}", sh, form), &got, &want)?;
    }
    Ok(())
}

fn stack<T: Elem>(c: &Case, ctx: &mut Ctx) -> R {
    let (a, k) = axis_of(c.axis.0, c.axis.1, c.base.len() + 1);
    let mut x = inputs::<T>(c, None);
    note(c, &x, ctx);
    if spoil(c, &mut x, None) {
        ctx.label("refused");
        let sh = shapes(&x.m);
        rejects(|| format!("stack_axis({}) of {:?}", a, sh), || forms!(c.form, &x.t, l => array::stack_axis(a, l)).1)?;
        rejects(|| format!("stack of {:?}", sh), || array::stack(x.t.clone()))?;
        rejects(|| format!("method stack({}) of {:?}", a, sh), || x.t[0].stack(x.t[1..].to_vec(), a))?;
        rejects(|| format!("vstack of {:?}", sh), || array::vstack(x.t.clone()))?;
        return Ok(());
    }
    let sh = shapes(&x.m);
    if c.base.len() == 6 {
        ctx.label("no room for another dimension");
        return rejects(|| format!("stack_axis({}) of {:?}", a, sh), || array::stack_axis(a, x.t.clone()));
    }
    let want = M::stack(&x.m, k).unwrap();
    let (form, got) = accepts(|| format!("stack_axis({}) of {:?}", a, sh), || forms!(c.form, &x.t, l => array::stack_axis(a, l)))?;
    ctx.label(&form);
    expect(&format!("stack_axis({}) of {:?} as {}", a, sh, form), &got, &want)?;
    let got = accepts(|| format!("method stack({}) of {:?}", a, sh), || x.t[0].stack(&x.t[1..], a))?;
    expect(&format!("method stack({}) of {:?}", a, sh), &got, &want)?;
    let want = M::stack(&x.m, 0).unwrap();
    let (form, got) = accepts(|| format!("stack of {:?}", sh), || forms!(c.form, &x.t, l => array::stack(l)))?;
    expect(&format!("stack of {:?} as {}", sh, form), &got, &want)?;
    let (form, got) = accepts(|| format!("vstack of {:?}", sh), || forms!(c.form, &x.t, l => array::vstack(l)))?;
    expect(&format!("vstack of {:?} as {}", sh, form), &got, &want)?;
    let got = accepts(|| format!("method vstack of {:?}", sh), || x.t[0].vstack(&x.t[1..]))?;
    expect(&format!("method vstack of {:?}", sh), &got, &want)
}

fn dstack<T: Elem>(c: &Case, ctx: &mut Ctx) -> R {
    let mut x = inputs::<T>(c, None);
    note(c, &x, ctx);
    if spoil(c, &mut x, if c.base.len() > 2 { Some(2) } else { None }) {
        ctx.label("refused");
        let sh = shapes(&x.m);
        rejects(|| format!("dstack of {:?}", sh), || forms!(c.form, &x.t, l => array::dstack(l)).1)?;
        return rejects(|| format!("method dstack of {:?}", sh), || x.t[0].dstack(&x.t[1..]));
    }
    if c.wrong.is_some() && x.m.iter().any(|m| m.shape != x.m[0].shape) {
        return Ok(());
    }
    let sh = shapes(&x.m);
    let deep: Vec<M<T>> = x.m.iter().map(|m| match m.rank() {
        1 => m.reshape(vec![1, m.shape[0], 1]),
        2 => m.reshape(vec![m.shape[0], m.shape[1], 1]),
        _ => m.clone(),
    }).collect();
    let want = M::concat(&deep, 2).unwrap();
    let (form, got) = accepts(|| format!("dstack of {:?}", sh), || forms!(c.form, &x.t, l => array::dstack(l)))?;
    expect(&format!("dstack of {:?} as {}", sh, form), &got, &want)?;
    expect(&format!("method dstack of {:?}", sh), &accepts(|| format!("method dstack of {:?}", sh), || x.t[0].dstack(&x.t[1..]))?, &want)
}

/// lists of plain vectors
fn vectors<T: Elem>(c: &Case, ctx: &mut Ctx) -> R {
    ctx.nt(c.inputs.len() > 1);
    let vs: Vec<Vec<T>> = c.inputs.iter().enumerate().map(|(k, i)| (0..if i.len > 30 { 0 } else { i.len }).map(|j| T::make(c.v.kind, c.v.seed + k as u32, j)).collect()).collect();
    ctx.label_if(vs.iter().any(|v| v.is_empty()), "with an empty vector");
    ctx.label_if(vs.iter().all(|v| v.is_empty()), "nothing but empty vectors");
    let lens: Vec<usize> = vs.iter().map(|v| v.len()).collect();
    let flat: Vec<T> = vs.iter().flatten().cloned().collect();
    let want = M::new(vec![flat.len()], flat);
    let what = format!("vectors of lengths {:?}", lens);
    let refs: Vec<&Vec<T>> = vs.iter().collect();
    let got = accepts(|| what.clone(), || match c.form % 4 {
        0 => array::concatenate(vs.clone()),
        1 => array::concatenate(refs.clone()),
        2 => array::concatenate(vs.as_slice()),
        _ => array::concatenate(refs.as_slice()),
    })?;
    ctx.label(&format!("form {}", c.form % 4));
    expect(&what, &got, &want)?;
    expect(&what, &accepts(|| what.clone(), || array::hstack(vs.clone()))?, &want)?;
    if vs.len() == 2 {
        expect(&what, &accepts(|| what.clone(), || array::concatenate([vs[0].clone(), vs[1].clone()]))?, &want)?;
        expect(&what, &accepts(|| what.clone(), || array::concatenate([&vs[0], &vs[1]]))?, &want)?;
        expect(&what, &accepts(|| what.clone(), || array::concatenate((&vs[0], vs[1].clone())))?, &want)?;
    }
    // equally long ones
    let n = lens[0];
    if n == 0 {
        return Ok(());
    }
    if lens.iter().any(|l| *l != n) {
        ctx.label("unequal");
        rejects(|| format!("stack of {}", what), || array::stack(vs.clone()))?;
        return rejects(|| format!("vstack of {}", what), || array::vstack(refs.clone()));
    }
    let ms: Vec<M<T>> = vs.iter().map(|v| M::new(vec![n], v.clone())).collect();
    for k in 0..2 {
        expect(&format!("stack_axis({}) of {}", k, what), &accepts(|| what.clone(), || array::stack_axis(k as isize, refs.as_slice()))?, &M::stack(&ms, k).unwrap())?;
    }
    expect(&format!("stack of {}", what), &accepts(|| what.clone(), || array::stack(vs.as_slice()))?, &M::stack(&ms, 0).unwrap())?;
    expect(&format!("vstack of {}", what), &accepts(|| what.clone(), || array::vstack(vs.clone()))?, &M::stack(&ms, 0).unwrap())
}

fn main() {
    vharness::fw::main(Prop {
        id: "C12",
        rule: "a case is a list of tensors (each with its provenance), an axis, a list form and possibly a disagreement; non-trivial: at least two inputs and more than one element",
        subs: vec![
            sub("empty", 3_000, vharness::empties::empty(), |c, ctx| vharness::empties::check("C12", c, ctx)),
            sub("concatenate", 30_000, case(1, 6, 200, 14), |c, ctx| with_type!(c.ty, T => concat::<T>(c, ctx))),
            sub("stack", 30_000, case(0, 6, 200, 14), |c, ctx| with_type!(c.ty, T => stack::<T>(c, ctx))),
            sub("dstack", 15_000, case(1, 6, 200, 14), |c, ctx| with_type!(c.ty, T => dstack::<T>(c, ctx))),
            sub("vectors", 15_000, case(1, 1, 20, 14), |c, ctx| with_type!(c.ty, T => vectors::<T>(c, ctx))),
            sub("concatenate_large", 300, case(1, 6, 70_000, 300), |c, ctx| concat::<u32>(c, ctx)),
            sub("stack_large", 300, case(1, 5, 40_000, 300), |c, ctx| stack::<u32>(c, ctx)),
            sub("dstack_large", 200, case(1, 6, 40_000, 300), |c, ctx| dstack::<u32>(c, ctx)),
        ],
    });
}
