//! C14: transpose and tile rearrange elements exactly as index arithmetic says
use essay_tensor::array;
use vharness::prelude::*;
use vharness::with_type;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    t: TS,
    mult: Vec<usize>,
    form: u8,
}

fn tcase(cap: usize) -> BoxedStrategy<Case> {
    (0u8..10, ts(mshape(1, 6, cap), &[IOTA, EXTREME]), any::<u8>()).prop_map(|(ty, t, form)| Case { ty, t, mult: vec![], form }).boxed()
}

fn mcase(cap: usize, top: usize) -> BoxedStrategy<Case> {
    let m = prop_oneof![3 => Just(1usize), 5 => 2usize..=3, 1 => 1usize..=top];
    (0u8..10, ts(mshape(0, 6, cap), &[IOTA, EXTREME]), prop::collection::vec(m, 0..=6), any::<u8>())
        .prop_map(move |(ty, t, mut mult, form)| {
            let mut room = (cap * 30 / size(&t.shape)).max(1);
            for m in mult.iter_mut() {
                *m = (*m).min(room);
                room /= *m;
            }
            Case { ty, t, mult, form }
        })
        .boxed()
}

/// rows of a length at an edge, repeated
fn rcase(cap: usize) -> BoxedStrategy<Case> {
    let len = prop_oneof![3 => (0usize..EDGES.len()).prop_map(|k| EDGES[k].min(2_100)), 1 => 1usize..=600];
    let m = || prop_oneof![2 => Just(1usize), 5 => 2usize..=4, 1 => 5usize..=70];
    (0u8..10, (len, sshape(0, 3, 6), any::<bool>(), any::<u8>()), vals(&[IOTA]), prov(), prop::collection::vec(m(), 1..=5), any::<u8>())
        .prop_map(move |(ty, (len, mut shape, last, at), v, prov, mut mult, form)| {
            let at = if last { shape.len() } else { at as usize % (shape.len() + 1) };
            shape.insert(at, len);
            let mut room = (cap / size(&shape)).max(2);
            for m in mult.iter_mut() {
                *m = (*m).min(room);
                room = (room / *m).max(1);
            }
            Case { ty, t: TS { shape, v, prov }, mult, form }
        })
        .boxed()
}

fn transpose<T: Elem>(c: &Case, ctx: &mut Ctx) -> R {
    let b = c.t.build::<T>();
    let (t, m) = (&b.t, &b.m);
    ctx.nt(m.data.len() > 1);
    ctx.label(&format!("rank {}", m.rank()));
    ctx.label_if(c.t.prov.is_view(), "view");
    ctx.label_if(m.rank() > 2 && size(&m.shape[..m.rank() - 2]) > 1, "batch");
    let want = m.transpose();
    let what = format!("transpose of {:?}", m.shape);
    let got = accepts(|| what.clone(), || match c.form % 4 {
        0 => t.transpose(),
        1 => t.t(),
        2 => array::transpose(t),
        _ => array::transpose(t.clone()),
    })?;
    expect(&what, &got, &want)?;
    if m.rank() > 1 {
        let back = accepts(|| format!("{}, twice", what), || got.t())?;
        expect(&format!("{}, twice", what), &back, m)?;
    }
    expect("operand afterwards", t, m)
}

fn tile<T: Elem>(c: &Case, ctx: &mut Ctx) -> R {
    let b = c.t.build::<T>();
    let (t, m) = (&b.t, &b.m);
    let mult = &c.mult;
    ctx.nt(mult.iter().any(|k| *k > 1));
    ctx.label(match mult.len().cmp(&m.rank()) {
        std::cmp::Ordering::Less => "fewer repeats than dimensions",
        std::cmp::Ordering::Equal => "as many repeats as dimensions",
        std::cmp::Ordering::Greater => "more repeats than dimensions",
    });
    ctx.label(&format!("rank {}", m.rank()));
    ctx.label_if(c.t.prov.is_view(), "view");
    ctx.label_if(mult.iter().filter(|k| **k > 1).count() > 1, "repeated along several axes");
    let want = m.tile(mult);
    let what = format!("tile of {:?} by {:?}", m.shape, mult);
    let mt = Tensor::from(mult.clone());
    let padded: Vec<usize> = [9usize, 9].iter().chain(mult).chain(&[7]).cloned().collect();
    let got = accepts(|| what.clone(), || match c.form % 5 {
        0 => t.tile(mult.clone()),
        1 => t.tile(mt.clone()),
        2 => array::tile(t, mult.as_slice()),
        3 => array::tile(t.clone(), &mt),
        _ => match mult.len() {
            0 => t.tile(Vec::<usize>::new()),
            1 => t.tile([mult[0]]),
            2 => t.tile([mult[0], mult[1]]),
            3 => array::tile(t, [mult[0], mult[1], mult[2]]),
            _ => t.tile(Tensor::from(padded.clone()).subslice(2, mult.len())),
        },
    })?;
    expect(&what, &got, &want)?;
    expect("operand afterwards", t, m)
}

fn main() {
    vharness::fw::main(Prop {
        id: "C14",
        rule: "a case is a tensor and, for tile, a list of repeats; non-trivial: more than one element, respectively a repeat above one",
        subs: vec![
            sub("empty", 3_000, vharness::empties::empty(), |c, ctx| vharness::empties::check("C14", c, ctx)),
            sub("transpose", 50_000, tcase(600), |c, ctx| with_type!(c.ty, T => transpose::<T>(c, ctx))),
            sub("tile", 50_000, mcase(60, 9), |c, ctx| with_type!(c.ty, T => tile::<T>(c, ctx))),
            sub("tile_rows", 5_000, rcase(9_000), |c, ctx| with_type!(c.ty, T => tile::<T>(c, ctx))),
            sub("transpose_large", 800, tcase(150_000), |c, ctx| transpose::<u32>(c, ctx)),
            sub("tile_large", 300, mcase(6_000, 1_000), |c, ctx| tile::<u32>(c, ctx)),
        ],
    });
}
