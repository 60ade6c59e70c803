//! C04: every way of reading elements agrees, out-of-range reads are refused
use vharness::prelude::*;
use vharness::with_type;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    t: TS,
    probes: Vec<usize>,
}

fn norm(s: &str) -> String {
    let mut out = String::new();
    let mut gap = false;
    for c in s.chars() {
        if c.is_whitespace() || c == ',' {
            gap = true;
        } else {
            if gap && !out.is_empty() {
                out.push(' ');
            }
            gap = false;
            out.push(c);
        }
    }
    out
}

fn debug_model<T: Elem>(m: &M<T>, axis: usize, base: usize) -> String {
    if axis == m.rank() {
        return format!("{:?}", m.data[base]);
    }
    let inner = size(&m.shape[axis + 1..]);
    let parts: Vec<String> = (0..m.shape[axis]).map(|i| debug_model(m, axis + 1, base + i * inner)).collect();
    format!("[{}]", parts.join(" "))
}

fn far(n: usize) -> Vec<usize> {
    vec![n, n + 1, 2 * n + 1, n + 1000, usize::MAX, usize::MAX - n, usize::MAX / 2, 1 << 32, 1 << 63]
}

fn read<T: Elem>(c: &Case, ctx: &mut Ctx) -> R {
    let b = c.t.build::<T>();
    let (t, m) = (&b.t, &b.m);
    let n = m.data.len();
    ctx.nt(n > 1);
    ctx.label(&format!("rank {}", m.rank()));
    ctx.label_if(c.t.prov.is_view(), "view with an offset");
    let eq = |what: &str, pos: usize, v: &T| -> R {
        ensure!(v.same(&m.data[pos]), "{} at {} of {:?}: {:?}, expected {:?}", what, pos, m.shape, v, m.data[pos]);
        Ok(())
    };
    let seq = |what: &str, from: usize, s: &[T]| -> R {
        ensure!(from + s.len() <= n, "{} at {}: {} elements, the tensor has {}", what, from, s.len(), n);
        for (i, v) in s.iter().enumerate() {
            eq(what, from + i, v)?;
        }
        Ok(())
    };
    ensure!(t.size() == n && t.as_slice().len() == n, "size {} slice {} expected {}", t.size(), t.as_slice().len(), n);
    seq("as_slice", 0, t.as_slice())?;
    let d: &[T] = &**t;
    ensure!(d.len() == n, "deref length {}", d.len());
    seq("deref", 0, d)?;
    let r: &[T] = t.as_ref();
    ensure!(r.len() == n, "as_ref length {}", r.len());
    seq("as_ref", 0, r)?;
    let r: &Tensor<T> = t.as_ref();
    seq("as_ref of the tensor", 0, r.as_slice())?;
    ensure!(t.iter().len() == n, "iter length");
    for (i, v) in t.iter().enumerate() {
        eq("iter", i, v)?;
    }
    let mut k = 0;
    for v in t {
        ensure!(k < n, "into_iter is too long");
        eq("into_iter", k, v)?;
        k += 1;
    }
    ensure!(k == n, "into_iter gave {} of {}", k, n);
    for i in 0..n {
        eq("index", i, &t[i])?;
        eq("get", i, t.get(i).ok_or_else(|| format!("get({}) of {} is none", i, n))?)?;
    }
    for i in far(n) {
        ensure!(t.get(i).is_none(), "get({}) of {} elements is not none", i, n);
        rejects(|| format!("index {} of {} elements", i, n), || { let _ = t[i].clone(); })?;
    }
    // rows
    let w = if m.rank() > 1 { m.cols() } else { 1 };
    let mut rows = 0;
    for (i, row) in t.iter_row().enumerate() {
        ensure!(row.len() == w, "row {} has {} elements, expected {}", i, row.len(), w);
        seq("iter_row", i * w, row)?;
        rows += 1;
    }
    ensure!(rows * w == n, "iter_row gave {} rows of {}", rows, w);
    // wrapped
    for p in &c.probes {
        for off in [*p % (n + 1), *p, n.wrapping_mul(*p % 5 + 1), n.wrapping_mul(*p % 7 + 1).wrapping_sub(1)] {
            let at = off % n;
            let s = t.as_wrap_slice(off);
            ensure!(s.len() == n - at, "as_wrap_slice({}) of {} has {} elements", off, n, s.len());
            seq("as_wrap_slice", at, s)?;
            unsafe { eq("as_wrap_ptr", at, &*t.as_wrap_ptr(off))? };
            for len in [0, 1, p % (n + 2), n - at] {
                if len <= n - at {
                    let s = accepts(|| format!("as_wrap_slice_n({}, {}) of {}", off, len, n), || t.as_wrap_slice_n(off, len))?;
                    ensure!(s.len() == len, "as_wrap_slice_n({}, {}) of {} has {} elements", off, len, n, s.len());
                    seq("as_wrap_slice_n", at, s)?;
                } else {
                    rejects(|| format!("as_wrap_slice_n({}, {}) of {}", off, len, n), || t.as_wrap_slice_n(off, len).len())?;
                }
            }
            rejects(|| format!("as_wrap_slice_n({}, {}) of {}", off, n - at + 1, n), || t.as_wrap_slice_n(off, n - at + 1).len())?;
        }
    }
    // debug
    if n <= 400 || n <= 20_000 && c.t.v.seed % 4 == 0 {
        let got = format!("{:?}", t);
        let want = format!("Tensor<{}> {{{}, shape: {:?}}}", std::any::type_name::<T>(), debug_model(m, 0, 0), m.shape);
        let (g, w) = (norm(&got).replace("{ ", "{"), norm(&want).replace("{ ", "{"));
        ensure!(g == w, "debug shows {} expected {}", g, w);
        ctx.label("debug");
    }
    Ok(())
}

macro_rules! tuple_at {
    ($t:expr, $i:expr) => {
        match $i.len() {
            2 => &$t[($i[0], $i[1])],
            3 => &$t[($i[0], $i[1], $i[2])],
            4 => &$t[($i[0], $i[1], $i[2], $i[3])],
            _ => &$t[($i[0], $i[1], $i[2], $i[3], $i[4])],
        }
    };
}

fn tuples<T: Elem>(c: &Case, ctx: &mut Ctx) -> R {
    let b = c.t.build::<T>();
    let (t, m) = (&b.t, &b.m);
    let n = m.data.len();
    ctx.nt(n > 1 || m.rank() < 2);
    ctx.label(&format!("rank {}", m.rank()));
    ctx.label_if(c.t.prov.is_view(), "view with an offset");
    // too many indices
    for arity in (m.rank() + 1).max(2)..=5 {
        rejects(|| format!("{} indices into shape {:?}", arity, m.shape), || tuple_at!(t, vec![0usize; arity]).clone())?;
        let mut i = index(&m.shape, c.probes[0] % n);
        i.resize(arity, 0);
        rejects(|| format!("indices {:?} into shape {:?}", i, m.shape), || tuple_at!(t, i).clone())?;
    }
    if m.rank() < 2 || m.rank() > 5 {
        return Ok(());
    }
    let step = (n / 300).max(1);
    let picks = (0..n).step_by(step).chain(c.probes.iter().map(|p| p % n)).chain([n - 1]);
    for o in picks {
        let i = index(&m.shape, o);
        let v = accepts(|| format!("index {:?} of {:?}", i, m.shape), || tuple_at!(t, i))?;
        ensure!(v.same(&m.data[o]), "index {:?} of {:?} is {:?}, expected {:?}", i, m.shape, v, m.data[o]);
    }
    // one coordinate out of its own range, the rest in range
    for (k, p) in c.probes.iter().enumerate() {
        let good = index(&m.shape, p % n);
        for axis in 0..m.rank() {
            let d = m.shape[axis];
            let inner = size(&m.shape[axis + 1..]);
            // values a wrapping offset computation would take for valid ones
            let wrap = (usize::MAX / inner).wrapping_add(1);
            for bad in [d, d + 1 + k, p % 40 + d, usize::MAX, wrap.max(d), wrap.wrapping_mul(2).max(d)] {
                let mut i = good.clone();
                i[axis] = bad;
                rejects(|| format!("index {:?} of shape {:?}", i, m.shape), || tuple_at!(t, i).clone())?;
            }
        }
    }
    Ok(())
}

fn empty(c: &V, ctx: &mut Ctx) -> R {
    ctx.nt(true);
    let parent: Tensor<i32> = Tensor::from_vec(values(*c, 9), [9]);
    let k = c.seed as usize % 10;
    for t in [Tensor::<i32>::from(Vec::<i32>::new()), Tensor::from_slice([]), parent.subslice_flat(k, 0, [0])] {
        ensure!(t.get(0).is_none() && t.size() == 0 && t.as_slice().is_empty() && t.iter().next().is_none(), "an empty tensor has an element");
        rejects(|| "index 0 of an empty tensor".to_string(), || t[0])?;
        rejects(|| "wrapped slice of an empty tensor".to_string(), || t.as_wrap_slice_n(0, 1).len())?;
        ensure!(norm(&format!("{:?}", t)).replace("{ ", "{") == "Tensor<i32> {[] shape: [0]}", "debug of an empty tensor: {:?}", t);
    }
    Ok(())
}

fn main() {
    let case = |s: BoxedStrategy<Vec<usize>>| {
        (0u8..10, ts(s, &[IOTA, EXTREME]), prop::collection::vec(prop_oneof![4 => 0usize..50, 2 => 0usize..100_000, 1 => any::<usize>()], 1..=3))
            .prop_map(|(ty, t, probes)| Case { ty, t, probes })
    };
    vharness::fw::main(Prop {
        id: "C04",
        rule: "a case is a tensor (element type, shape, contents, whole or view of some history) and probe positions; non-trivial: more than one element, or an access that has to be refused",
        subs: vec![
            sub("empty", 3_000, vharness::empties::empty(), |c, ctx| vharness::empties::check("C04", c, ctx)),
            sub("read", 40_000, case(mshape(0, 6, 3_000)), |c, ctx| with_type!(c.ty, T => read::<T>(c, ctx))),
            sub("tuples", 60_000, case(prop_oneof![6 => mshape(2, 5, 1_500), 1 => sshape(0, 6, 200)].boxed()), |c, ctx| with_type!(c.ty, T => tuples::<T>(c, ctx))),
            sub("read_large", 400, case(shape(1, 6, 40_000)), |c, ctx| with_type!(c.ty, T => read::<T>(c, ctx))),
            sub("tuples_large", 400, case(shape(2, 5, 100_000)), |c, ctx| with_type!(c.ty, T => tuples::<T>(c, ctx))),
            sub("nothing", 200, vals(&[IOTA]), empty),
        ],
    });
}
