//! C15: structured initialisers put each value where its definition says
use essay_tensor::init;
use num_complex::Complex;
use num_traits::{One, Zero};
use vharness::prelude::*;
use vharness::with_type;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shaped {
    ty: u8,
    t: TS,
    form: u8,
}

/// a user's number type, whose zero and one are not the obvious bit patterns
#[derive(Clone, Debug, PartialEq)]
struct Num(String);
impl Type for Num {}
impl std::ops::Add for Num {
    type Output = Num;
    fn add(self, o: Num) -> Num {
        Num(format!("{}+{}", self.0, o.0))
    }
}
impl std::ops::Mul for Num {
    type Output = Num;
    fn mul(self, o: Num) -> Num {
        Num(format!("{}*{}", self.0, o.0))
    }
}
impl Zero for Num {
    fn zero() -> Self {
        Num("zero".into())
    }
    fn is_zero(&self) -> bool {
        self.0 == "zero"
    }
}
impl One for Num {
    fn one() -> Self {
        Num("one".into())
    }
}
impl Elem for Num {
    fn make(kind: u8, seed: u32, i: usize) -> Self {
        Num(String::make(kind, seed, i))
    }
}

macro_rules! with_num {
    ($n:expr, $T:ident => $body:expr) => {
        match $n % 7 {
            0 => { type $T = f32; $body }
            1 => { type $T = f64; $body }
            2 => { type $T = i8; $body }
            3 => { type $T = u64; $body }
            4 => { type $T = Complex<f32>; $body }
            5 => { type $T = i128; $body }
            _ => { type $T = Num; $body }
        }
    };
}

fn constant<T: Elem + Zero + One>(c: &Shaped, ctx: &mut Ctx) -> R {
    let s = &c.t.shape;
    let n = size(s);
    ctx.nt(n > 1);
    ctx.label(&format!("rank {}", s.len()));
    let all = |v: T| M::new(s.clone(), vec![v; n]);
    let x = T::make(EXTREME, c.t.v.seed, 3);
    let d = s.as_slice();
    expect("zeros", &accepts(|| format!("zeros {:?}", s), || init::zeros::<T>(d))?, &all(T::zero()))?;
    expect("Tensor::zeros", &accepts(|| format!("zeros {:?}", s), || Tensor::<T>::zeros(d))?, &all(T::zero()))?;
    expect("ones", &accepts(|| format!("ones {:?}", s), || init::ones::<T>(s.clone()))?, &all(T::one()))?;
    expect("Tensor::ones", &accepts(|| format!("ones {:?}", s), || Tensor::<T>::ones(&Shape::from(d)))?, &all(T::one()))?;
    expect("fill", &accepts(|| format!("fill {:?}", s), || init::fill(d, x.clone()))?, &all(x.clone()))?;
    expect("Tensor::fill", &accepts(|| format!("fill {:?}", s), || Tensor::fill(d, x.clone()))?, &all(x.clone()))?;
    Ok(())
}

fn square<T: Elem + Zero + One>(ty: u8, n: usize, ctx: &mut Ctx) -> R {
    ctx.nt(n > 1);
    ctx.label(if ty % 7 == 6 { "user type" } else { "number type" });
    let pick = |c: bool| if c { T::one() } else { T::zero() };
    let id = M::from_fn(vec![n, n], |i| pick(i[0] == i[1]));
    expect("eye", &accepts(|| format!("eye({})", n), || init::eye::<T>(n))?, &id)?;
    expect("identity", &accepts(|| format!("identity({})", n), || init::identity::<T>(n))?, &id)?;
    expect("Tensor::eye", &accepts(|| format!("eye({})", n), || Tensor::<T>::eye(n))?, &id)?;
    expect("Tensor::identity", &accepts(|| format!("identity({})", n), || Tensor::<T>::identity(n))?, &id)?;
    let tri = M::from_fn(vec![n, n], |i| pick(i[1] <= i[0]));
    expect("tri", &accepts(|| format!("tri({})", n), || init::tri::<T>(n))?, &tri)?;
    expect("Tensor::tri", &accepts(|| format!("tri({})", n), || Tensor::<T>::tri(n))?, &tri)
}

fn triangles<T: Elem + Zero>(c: &Shaped, ctx: &mut Ctx) -> R {
    let b = c.t.build::<T>();
    let (t, m) = (&b.t, &b.m);
    let r = m.rank();
    ctx.nt(m.data.len() > 1);
    ctx.label(&format!("rank {}", r));
    ctx.label_if(c.t.prov.is_view(), "view");
    if r < 2 {
        ctx.label("refused");
        rejects(|| format!("tril of {:?}", m.shape), || t.tril())?;
        return rejects(|| format!("triu of {:?}", m.shape), || t.triu());
    }
    ctx.label(match m.shape[r - 2].cmp(&m.shape[r - 1]) {
        std::cmp::Ordering::Less => "wide",
        std::cmp::Ordering::Equal => "square",
        std::cmp::Ordering::Greater => "tall",
    });
    let low = M::from_fn(m.shape.clone(), |i| if i[r - 1] <= i[r - 2] { m.at(i).clone() } else { T::zero() });
    let up = M::from_fn(m.shape.clone(), |i| if i[r - 1] >= i[r - 2] { m.at(i).clone() } else { T::zero() });
    expect(&format!("tril of {:?}", m.shape), &accepts(|| format!("tril of {:?}", m.shape), || t.tril())?, &low)?;
    expect(&format!("triu of {:?}", m.shape), &accepts(|| format!("triu of {:?}", m.shape), || t.triu())?, &up)?;
    expect("operand afterwards", t, m)
}

fn diag<T: Elem + Zero>(c: &Shaped, ctx: &mut Ctx) -> R {
    let b = c.t.build::<T>();
    let (t, m) = (&b.t, &b.m);
    ctx.nt(m.data.len() > 1);
    ctx.label(&format!("rank {}", m.rank()));
    ctx.label_if(c.t.prov.is_view(), "view");
    if m.rank() != 1 {
        ctx.label("refused");
        return rejects(|| format!("diagflat of {:?}", m.shape), || t.diagflat());
    }
    let n = m.shape[0];
    let want = M::from_fn(vec![n, n], |i| if i[0] == i[1] { m.data[i[0]].clone() } else { T::zero() });
    expect(&format!("diagflat of {}", n), &accepts(|| format!("diagflat of {}", n), || t.diagflat())?, &want)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mesh {
    ty: u8,
    axes: Vec<TS>,
    owned: bool,
}

fn mesh<T: Elem>(c: &Mesh, ctx: &mut Ctx) -> R {
    let mut b: Vec<_> = c.axes.iter().map(|a| a.build::<T>()).collect();
    if let Some(s) = siblings(&b.iter().map(|x| &x.m).collect::<Vec<_>>(), c.axes[0].v.seed) {
        b.iter_mut().zip(s).for_each(|(b, t)| b.t = t);
    }
    let n = b.len();
    ctx.nt(b.iter().all(|x| x.m.data.len() > 1));
    ctx.label(&format!("{} axes", n));
    ctx.label_if(c.axes.iter().any(|a| a.prov.is_view()), "view");
    let sizes: Vec<usize> = b.iter().map(|x| x.m.data.len()).collect();
    let mut rev = sizes.clone();
    rev.reverse();
    let t = |k: usize| &b[k].t;
    let o = |k: usize| b[k].t.clone();
    let what = |w: &str| format!("{} of {:?}", w, sizes);
    let xy: Vec<Tensor<T>> = accepts(|| what("meshgrid"), || match (n, c.owned) {
        (1, false) => init::meshgrid([t(0)]).to_vec(),
        (1, true) => init::meshgrid([o(0)]).to_vec(),
        (2, false) => init::meshgrid([t(0), t(1)]).to_vec(),
        (2, true) => init::meshgrid([o(0), o(1)]).to_vec(),
        (_, false) => init::meshgrid([t(0), t(1), t(2)]).to_vec(),
        (_, true) => init::meshgrid([o(0), o(1), o(2)]).to_vec(),
    })?;
    let ij: Vec<Tensor<T>> = accepts(|| what("meshgrid_ij"), || match (n, c.owned) {
        (1, false) => init::meshgrid_ij([t(0)]).to_vec(),
        (1, true) => init::meshgrid_ij([o(0)]).to_vec(),
        (2, false) => init::meshgrid_ij([t(0), t(1)]).to_vec(),
        (2, true) => init::meshgrid_ij([o(0), o(1)]).to_vec(),
        (_, false) => init::meshgrid_ij([t(0), t(1), t(2)]).to_vec(),
        (_, true) => init::meshgrid_ij([o(0), o(1), o(2)]).to_vec(),
    })?;
    for k in 0..n {
        let want_ij = M::from_fn(sizes.clone(), |i| b[k].m.data[i[k]].clone());
        let want_xy = M::from_fn(rev.clone(), |i| b[k].m.data[i[n - 1 - k]].clone());
        expect(&format!("output {} of {}", k, what("meshgrid")), &xy[k], &want_xy)?;
        expect(&format!("output {} of {}", k, what("meshgrid_ij")), &ij[k], &want_ij)?;
        if n == 2 {
            expect(&format!("output {} of {}", k, what("method meshgrid")), &t(0).meshgrid(t(1))[k], &want_xy)?;
            expect(&format!("output {} of {}", k, what("method meshgrid_ij")), &t(0).meshgrid_ij(t(1))[k], &want_ij)?;
        }
    }
    Ok(())
}

fn one<const A: usize, const B: usize>() -> R {
    let g = accepts(|| format!("mgrid {} {}", A, B), || init::mgrid::<A, B>())?;
    expect(&format!("first output of mgrid {} {}", A, B), &g[0], &M::from_fn(vec![B, A], |i| i[1] as f32))?;
    expect(&format!("second output of mgrid {} {}", A, B), &g[1], &M::from_fn(vec![B, A], |i| i[0] as f32))
}

fn mgrid(k: &u8, ctx: &mut Ctx) -> R {
    ctx.nt(true);
    match k % 12 {
        0 => one::<1, 1>(),
        1 => one::<1, 2>(),
        2 => one::<2, 1>(),
        3 => one::<2, 3>(),
        4 => one::<3, 2>(),
        5 => one::<4, 4>(),
        6 => one::<5, 17>(),
        7 => one::<33, 2>(),
        8 => one::<9, 8>(),
        9 => one::<1, 65>(),
        10 => one::<65, 1>(),
        _ => one::<64, 30>(),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hot {
    idx: Vec<usize>,
    depth: usize,
}

fn hot(c: &Hot, ctx: &mut Ctx) -> R {
    ctx.nt(!c.idx.is_empty() && c.depth > 1);
    let what = format!("one_hot({:?}, {})", c.idx, c.depth);
    if c.idx.iter().any(|i| *i >= c.depth) {
        ctx.label("beyond the depth, refused");
        rejects(|| what.clone(), || Tensor::one_hot(&c.idx, c.depth))?;
        return rejects(|| what.clone(), || init::one_hot(&c.idx, c.depth));
    }
    ctx.label(match c.idx.len() { 0 => "no index", 1 => "one index", _ => "several indices" });
    let mut seen = c.idx.clone();
    seen.sort();
    seen.dedup();
    ctx.label_if(seen.len() < c.idx.len(), "repeated index");
    let want = M::from_fn(vec![c.depth], |i| if c.idx.contains(&i[0]) { 1f32 } else { 0. });
    expect(&what, &accepts(|| what.clone(), || init::one_hot(&c.idx, c.depth))?, &want)?;
    expect(&what, &accepts(|| what.clone(), || Tensor::one_hot(c.idx.as_slice(), c.depth))?, &want)
}

fn main() {
    let shaped = |s: BoxedStrategy<Vec<usize>>| (0u8..7, ts(s, &[IOTA, SMALL, EXTREME]), any::<u8>()).prop_map(|(ty, t, form)| Shaped { ty, t, form }).boxed();
    let n = || prop_oneof![4 => 1usize..=6, 2 => 1usize..=40, 1 => (0usize..12).prop_map(|k| EDGES[k])];
    let axis = |cap: usize| ts(shape(1, 1, cap), &[IOTA, EXTREME, SMALL]);
    let mcase = |cap: usize| (0u8..10, prop::collection::vec(axis(cap), 1..=3), any::<bool>()).prop_map(|(ty, axes, owned)| Mesh { ty, axes, owned });
    let depth = || prop_oneof![8 => 1usize..=8, 4 => 1usize..=300, 1 => (0..EDGES.len()).prop_map(|k| EDGES[k]), 1 => 300usize..=5000, 2 => Just(0usize)];
    let hcase = (depth(), prop::collection::vec(any::<usize>(), 0..=5), prop::option::weighted(0.25, (0usize..6, prop_oneof![3 => 0usize..3, 1 => any::<usize>()])))
        .prop_map(|(depth, raw, bad)| {
            let mut idx: Vec<usize> = if depth == 0 { vec![] } else { raw.iter().map(|i| i % depth).collect() };
            if let Some((at, by)) = bad {
                idx.insert(at.min(idx.len()), depth.saturating_add(by));
            }
            Hot { idx, depth }
        });
    vharness::fw::main(Prop {
        id: "C15",
        rule: "a case is a shape, size, axis vectors or index list and an element type; non-trivial: more than one element",
        subs: vec![
            sub("empty", 3_000, vharness::empties::empty(), |c, ctx| vharness::empties::check("C15", c, ctx)),
            sub("constant", 15_000, shaped(mshape(0, 6, 400)), |c, ctx| with_num!(c.ty, T => constant::<T>(c, ctx))),
            sub("square_large", 24, (0u8..2, prop_oneof![1 => 200usize..600, 1 => prop::sample::select(vec![127usize, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513])]), |c: &(u8, usize), ctx| if c.0 == 0 { square::<u8>(0, c.1, ctx) } else { square::<f32>(0, c.1, ctx) }),
            sub("square", 6_000, (0u8..7, n()), |c: &(u8, usize), ctx| with_num!(c.0, T => square::<T>(c.0, c.1, ctx))),
            sub("triangles", 40_000, shaped(mshape(0, 6, 500)), |c, ctx| with_num!(c.ty, T => triangles::<T>(c, ctx))),
            sub("diagflat", 10_000, shaped(prop_oneof![6 => shape(1, 1, 60), 1 => mshape(0, 4, 60)].boxed()), |c, ctx| with_num!(c.ty, T => diag::<T>(c, ctx))),
            sub("diagflat_large", 60, shaped(prop_oneof![1 => 61usize..=500, 1 => prop::sample::select(vec![63usize, 64, 65, 127, 128, 129, 192, 255, 256, 257, 320, 384, 512])].prop_map(|n| vec![n]).boxed()), |c, ctx| with_num!(c.ty, T => diag::<T>(c, ctx))),
            sub("meshgrid", 20_000, mcase(14), |c, ctx| with_type!(c.ty, T => mesh::<T>(c, ctx))),
            sub("mgrid", 48, 0u8..12, mgrid),
            sub("one_hot", 20_000, hcase, hot),
            sub("triangles_large", 300, shaped(shape(2, 5, 150_000)), |c, ctx| with_num!(c.ty % 6, T => triangles::<T>(c, ctx))),
            sub("meshgrid_large", 100, mcase(300).prop_filter("size", |c: &Mesh| c.axes.iter().map(|a| a.size()).product::<usize>() < 200_000), |c, ctx| mesh::<u32>(c, ctx)),
            sub("constant_large", 60, shaped(shape(1, 6, 300_000)), |c, ctx| with_num!(c.ty % 6, T => constant::<T>(c, ctx))),
        ],
    });
}
