use fnntw::moms::moms_seq;
use fnntw::point::Point;
use fxh::inst::{self, X};
use fxh::prelude::*;
use fxh::walk::{self, coords};
use std::sync::OnceLock;
// C14: the split step rearranges without loss, and trees stay balanced on any data of any size.
fn pool(i: usize) -> &'static rayon::ThreadPool {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    &P.get_or_init(|| [1, 2, 3, 8, 16].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect())[i]
}
/// data sets with long runs of equal coordinates, sorted runs and adversarial orders
fn hard<const D: usize>(r: &mut fxh::rng::Rng, n: usize) -> (Vec<[f64; D]>, String) {
    let base: [f64; D] = [(); D].map(|_| r.unif(-1.0, 1.0));
    let m = *r.pick(&[1usize, 2, 3, 10, 100, 1000]);
    let frac = *r.pick(&[0.1, 0.3, 0.5, 0.9, 0.99, 0.999]);
    let (kind, v): (&str, Vec<[f64; D]>) = match r.below(12) {
        0 => ("identical", vec![base; n]),
        1 => ("few values", (0..n).map(|_| [(); D].map(|_| r.below(m) as f64)).collect()),
        2 => ("mostly one value", (0..n).map(|_| if r.chance(frac) { base } else { [(); D].map(|_| r.unif(-2.0, 2.0)) }).collect()),
        3 => ("one value above the rest", (0..n).map(|_| if r.chance(frac) { [2.0; D] } else { [(); D].map(|_| r.f()) }).collect()),
        4 => ("one value below the rest", (0..n).map(|_| if r.chance(frac) { [-2.0; D] } else { [(); D].map(|_| r.f()) }).collect()),
        5 => ("sorted", (0..n).map(|i| [i as f64; D]).collect()),
        6 => ("reversed", (0..n).map(|i| [-(i as f64); D]).collect()),
        7 => ("sorted runs", (0..n).map(|i| [(i % (n / 32 + 1)) as f64; D]).collect()),
        8 => ("organ pipe", (0..n).map(|i| [i.min(n - i) as f64; D]).collect()),
        9 => ("one axis constant", (0..n).map(|_| { let mut p = [(); D].map(|_| r.f()); p[0] = 0.5; p }).collect()),
        10 => ("chunks in steps", (0..n).map(|i| [(i * 40 / n) as f64 + if r.chance(0.5) { 0.0 } else { r.f() }; D]).collect()),
        _ => ("alternating", (0..n).map(|i| [if i % 2 == 0 { 0.0 } else { 1.0 + (i % 7) as f64 }; D]).collect()),
    };
    (v, format!("{kind} ({m} values, share {frac})"))
}
fn split<T: Sc, const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let big = c.idx % 6 == 0;
    let n = if big { *r.pick(&[99_999, 100_000, 100_001, 100_007, 131_072, 170_000, 262_144]) } else { gen::size(r) };
    let (data, kind): (Vec<[T; D]>, String) = if D <= 3 && r.chance(0.6) {
        let (v, k) = hard::<D>(r, n);
        (v.into_iter().map(|p| p.map(T::of)).collect(), k)
    } else {
        let k = r.below(gen::KINDS.len());
        (gen::points::<T, D>(r, n, k), gen::KINDS[k].into())
    };
    // NotNan is transparent: the points borrow the rows
    let rows: Vec<[NotNan<T>; D]> = data.iter().map(|p| p.map(|x| NotNan::new(x).unwrap())).collect();
    let mut pts: Vec<Point<T, D>> = rows.iter().map(Point::new).collect();
    let axis = r.below(D);
    let chunk = *r.pick(&[None, None, None, Some(1), Some(5), Some(64), Some(n / 3 + 1), Some(n), Some(2 * n), Some(25_000)]);
    let chunk = if chunk == Some(1) && n > 140_000 { Some(3) } else { chunk };
    let pi = r.below(6);
    let what = format!("moms_seq of {n} {}x{D} points, {kind}, axis {axis} chunk {chunk:?}", T::NAME);
    let p = &mut pts;
    let (l, pivot, rr) = if pi < 5 {
        pool(pi).install(move || { let (a, m, b) = moms_seq(p, chunk, axis); (a.len(), *m, b.len()) })
    } else {
        let (a, m, b) = moms_seq(p, chunk, axis);
        (a.len(), *m, b.len())
    };
    ensure!(l + 1 + rr == n, "{what}: {l} + 1 + {rr} points");
    let pv = coords(&pivot)[axis];
    for (i, p) in pts.iter().enumerate() {
        let x = coords(p)[axis];
        if i < l {
            ensure!(x <= pv, "{what}: {x:?} left of the pivot {pv:?}");
        } else if i == l {
            ensure!(bits(&coords(p)) == bits(&coords(&pivot)), "{what}: the pivot {pivot:?} is not at its place");
        } else {
            ensure!(x >= pv, "{what}: {x:?} right of the pivot {pv:?}");
        }
    }
    // a permutation of the input, by identity of the rows
    let first = rows.as_ptr() as usize;
    let size = std::mem::size_of::<[T; D]>();
    let mut seen = vec![false; n];
    for p in &pts {
        let a = unsafe { p.get_unchecked(0) as *const NotNan<T> as usize };
        let i = a.wrapping_sub(first) / size;
        ensure!(i < n && !seen[i], "{what}: row {i} twice or from nowhere");
        seen[i] = true;
    }
    // neither side is more than a fixed share when nothing forces it to be
    let (lt, gt) = pts.iter().fold((0, 0), |(a, b), p| { let x = coords(p)[axis]; (a + (x < pv) as usize, b + (x > pv) as usize) });
    if n >= 64 && chunk.is_none() {
        let worst = l.max(rr);
        ensure!(worst * 100 <= n * 90 + 200, "{what}: split into {l} and {rr} ({lt} below, {gt} above the pivot)");
        c.st.max("share of the larger side", worst as f64 / n as f64);
    }
    c.st.eval();
    c.st.add("splits", 1);
    c.st.add("points split", n as u64);
    if n >= 100_000 {
        c.st.add("splits of 100000+ points", 1)
    }
    c.st.nontrivial(run::hash(&[1, D as u64, n as u64, axis as u64, chunk.unwrap_or(0) as u64, l as u64, pv.bits()]));
    Ok(())
}
fn whole<const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = if c.thorough { *r.pick(&[20_000, 99_999, 100_000, 150_000, 300_000, 700_000]) } else { *r.pick(&[20_000, 100_000, 120_000, 200_000]) };
    let (v, kind) = hard::<D>(r, n);
    let data = inst::x(&v);
    let leaf = *r.pick(&[1, 4, 16, 32]);
    let par = *r.pick(&[None, None, Some(0), Some(2)]);
    let b = Build { leaf, par };
    let what = format!("{kind} {n} points in {D}D, {b:?}");
    let lg = (n as f64).log2();
    let pi = r.below(6);
    let t = if pi < 5 { pool(pi).install(|| build(&data, b)) } else { build(&data, b) }.map_err(|e| format!("{what}: {e:?}"))?;
    let sh = walk::check(&t, &data, leaf).map_err(|e| format!("{what}: {e}"))?;
    ensure!((sh.depth as f64) <= 2.0 * lg + 8.0, "{what}: the tree has {} levels", sh.depth);
    c.st.max("depth / log2 n", sh.depth as f64 / lg);
    for _ in 0..4 {
        let q = gen::query(r, &data);
        let a = q1(&t, &q).map_err(|e| format!("{what}: {e:?}"))?;
        check1(&data, None, &q, &a).map_err(|e| format!("{what}: {e}"))?;
        let k = r.range(1, 40);
        let a = qk(&t, &q, k).map_err(|e| format!("{what}: {e:?}"))?;
        check_k(&data, None, &q, k, &a).map_err(|e| format!("{what}: k={k}: {e}"))?;
    }
    c.st.evals(10);
    c.st.add("trees walked", 1);
    c.st.nontrivial(run::hash(&[2, D as u64, n as u64, leaf as u64, sh.depth as u64, sh.nodes as u64]));
    c.st.sample(|| format!("{what}: depth {}", sh.depth));
    Ok(())
}
/// Counts the operations of serial builds, on a thread of its own.
fn cost<const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = *r.pick(&[1000, 10_000, 50_000, 99_999]);
    let (v, kind) = hard::<D>(r, n);
    let data = inst::x(&v);
    let leaf = *r.pick(&[1, 8, 32]);
    let lg = (n as f64).log2();
    let o0 = inst::my_ops();
    let _t = build(&data, Build { leaf, par: None }).map_err(|e| format!("{e:?}"))?;
    let ops = inst::my_ops() - o0;
    let per = ops as f64 / (n as f64 * (lg + D as f64));
    ensure!(per <= bound(D), "building {n} points in {D}D ({kind}) with leaf size {leaf} took {ops} scalar operations, {per:.1} per point and level");
    c.st.max("scalar operations of a build per point and level", per);
    c.st.add("builds with counted operations", 1);
    c.st.eval();
    Ok(())
}
fn main() {
    fxh::alloc::fill();
    run::main("C14", |c| {
        if c.args.mode == "cost" {
            // nothing else runs, so that operations of every thread can be told apart
            let d = c.rng.below(3);
            return match d { 0 => big_cost::<1>(c), 1 => big_cost::<2>(c), _ => big_cost::<3>(c) };
        }
        match c.rng.below(10) {
            0..=4 => { let (w, d) = run::pick_dim(&mut c.rng); dispatch!(w, d, split(c)) }
            5..=6 => match c.rng.below(3) { 0 => cost::<1>(c), 1 => cost::<2>(c), _ => cost::<3>(c) },
            _ => match c.rng.below(3) { 0 => whole::<1>(c), 1 => whole::<2>(c), _ => whole::<3>(c) },
        }
    })
}
/// Scalar operations per point and level: selecting takes some (below 3 here), and bounds may be
/// found anew from the points at every level.
fn bound(d: usize) -> f64 {
    15.0 + 3.0 * d as f64
}
/// Operations of all threads, for builds of 100000 points and more. Run with one worker.
fn big_cost<const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = *r.pick(&[100_000, 150_000, 300_000]);
    let (v, kind) = hard::<D>(r, n);
    let data = inst::x(&v);
    let leaf = *r.pick(&[1, 8, 32]);
    let par = *r.pick(&[None, Some(1), Some(3)]);
    let lg = (n as f64).log2();
    let lim = (n as f64 * (lg + D as f64) * bound(D)) as u64;
    let o0 = inst::ops();
    // each thread starts from its own count, so this stops runaway builds only
    inst::budget(o0 + 4 * lim);
    let pi = r.below(6);
    let t = if pi < 5 { pool(pi).install(|| build(&data, Build { leaf, par })) } else { build(&data, Build { leaf, par }) }.map_err(|e| format!("{e:?}"))?;
    inst::budget(u64::MAX);
    let ops = inst::ops() - o0;
    let per = ops as f64 / (n as f64 * (lg + D as f64));
    ensure!(per <= bound(D), "building {n} points in {D}D ({kind}), leaf size {leaf}, parallel levels {par:?} took {ops} scalar operations, {per:.1} per point and level");
    let sh = walk::check(&t, &data, leaf).map_err(|e| format!("{kind} {n} points in {D}D: {e}"))?;
    ensure!((sh.depth as f64) <= 2.0 * lg + 8.0, "{kind} {n} points in {D}D: the tree has {} levels", sh.depth);
    c.st.max("scalar operations of a build per point and level", per);
    c.st.max("depth / log2 n", sh.depth as f64 / lg);
    c.st.add("large builds with counted operations", 1);
    c.st.eval();
    c.st.nontrivial(run::hash(&[3, D as u64, n as u64, leaf as u64, sh.depth as u64, ops]));
    Ok(())
}
