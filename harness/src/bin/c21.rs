use fxh::inst::{self, X};
use fxh::prelude::*;
use fxh::walk;
// C21: how many scalar operations queries cost.
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    One,
    K,
    Batch(bool),
    Axis,
}
/// operations of one query on this thread
fn cost<const D: usize>(t: &Tree<X, D>, q: &[X; D], k: usize, kind: Kind) -> Result<u64, String> {
    let o = inst::my_ops();
    match kind {
        Kind::One => q1(t, q).map(|_| ()),
        Kind::K => qk(t, q, k).map(|_| ()),
        Kind::Batch(w) => qkp(t, &[*q], k, w).map(|_| ()),
        Kind::Axis => qax(t, &[*q], k, (k + D) % D).map(|_| ()),
    }
    .map_err(|e| format!("{e:?}"))?;
    Ok(inst::my_ops() - o)
}
fn name(k: Kind) -> &'static str {
    match k { Kind::One => "query_nearest", Kind::K => "query_nearest_k", Kind::Batch(false) => "query_nearest_k_parallel", Kind::Batch(true) => "query_nearest_k_parallel_with", Kind::Axis => "query_nearest_k_parallel_axis" }
}
fn kinds() -> Vec<Kind> {
    let mut v = vec![Kind::One, Kind::K];
    if BATCH {
        v.extend([Kind::Batch(false), Kind::Batch(true), Kind::Axis])
    }
    v
}
/// Mean cost on uniform data against a constant times k + leaf + log n.
fn uniform<const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = if c.thorough { *r.pick(&[3000, 10_000, 60_000, 120_000, 300_000]) } else if c.idx % 40 == 2 { 110_000 } else { *r.pick(&[3000, 10_000, 40_000]) };
    let leaf = *r.pick(&[1, 4, 8, 16, 32, 64]);
    let data: Vec<[X; D]> = (0..n).map(|_| [(); D].map(|_| X(r.f()))).collect();
    let periodic = r.chance(0.5);
    let par = if r.chance(0.3) { Some(2) } else { None };
    let one = [X(1.0); D];
    let mut t = build(&data, Build { leaf, par }).map_err(|e| format!("{e:?}"))?;
    if periodic {
        t = t.with_boxsize(&one).map_err(|e| format!("{e:?}"))?;
    }
    for kind in kinds() {
        let k = if kind == Kind::One { 1 } else { if n >= 10_000 { *r.pick(&[1, 2, 8, 32, 100, 300, 1000]) } else { *r.pick(&[1, 2, 8, 32, 100]) } };
        let m = 40;
        let (mut sum, mut top) = (0u64, 0u64);
        for _ in 0..m {
            let q: [X; D] = if r.chance(0.2) { data[r.below(n)] } else { [(); D].map(|_| X(r.f())) };
            let o = cost(&t, &q, k, kind)?;
            sum += o;
            top = top.max(o);
        }
        let mean = sum as f64 / m as f64;
        let scale = D as f64 * (k as f64 + leaf as f64 + (n as f64).log2());
        let (a, b) = (mean / scale, top as f64 / scale);
        let lg = (k as f64 + 1.0).log2();
        c.st.max(&format!("mean cost in D={D} {}", if periodic { "periodic" } else { "plain" }), a);
        c.st.max(&format!("single cost in D={D} {}", if periodic { "periodic" } else { "plain" }), b);
        // two and a half times what the pinned tree needs
        let lim = 2.5 * ([0.0, 7.0, 9.0, 19.0][D] + 3.7 * lg);
        let what = format!("{n} uniform points in {D}D, leaf size {leaf}{}: {} k={k}", if periodic { " in a box" } else { "" }, name(kind));
        c.st.max("mean cost over the bound", a / lim);
        ensure!(a <= lim, "{what} takes {mean:.0} scalar operations on average, {a:.1} times D(k + leaf + log n)");
        if n >= 10_000 && k <= 8 && leaf <= 32 {
            ensure!(mean * 4.0 < (n * D) as f64, "{what} takes {mean:.0} scalar operations on average, not far below {n} points");
        }
        c.st.evals(m);
        c.st.add(name(kind), m as u64);
        c.st.nontrivial(run::hash(&[1, D as u64, n as u64, leaf as u64, k as u64, periodic as u64, sum]));
    }
    c.st.sample(|| format!("{n} uniform points in {D}D, leaf size {leaf}, periodic {periodic}"));
    Ok(())
}
/// Worst case on any data: a constant times one pass over points and nodes per image.
fn worst<const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = gen::size(r).max(2);
    let periodic = r.chance(0.4) && D <= 3;
    let kind0 = r.below(gen::KINDS.len());
    let (data, bx) = if periodic { let (d, b, _) = gen::boxed::<X, D>(r, n); (d, Some(b)) } else { (gen::points::<X, D>(r, n, kind0), None) };
    let leaf = gen::leaf(r, n);
    let mut t = build(&data, Build { leaf, par: None }).map_err(|e| format!("{e:?}"))?;
    let sh = walk::check(&t, &data, leaf)?;
    if let Some(b) = &bx {
        t = t.with_boxsize(b).map_err(|e| format!("{e:?}"))?;
    }
    for _ in 0..6 {
        let q = match &bx { Some(b) => gen::query_box(r, &data, b), None => gen::query(r, &data) };
        for kind in kinds() {
            let k = if kind == Kind::One { 1 } else { gen::k(r, n) };
            let o = cost(&t, &q, k, kind)?;
            let images = if periodic { 1 << D } else { 1 };
            let pass = ((n + sh.nodes) * images + images * images) as f64 * (D as f64 * 8.0 + 4.0 * ((k.min(n) + 2) as f64).log2() + 12.0);
            c.st.max("cost over the worst-case bound", o as f64 / pass);
            ensure!((o as f64) <= pass, "{} {n} points in {D}D leaf {leaf} box {bx:?}: {} k={k} {q:?} takes {o} scalar operations, more than a few passes over everything", gen::KINDS[kind0], name(kind));
            c.st.eval();
            c.st.add("worst-case queries", 1);
        }
    }
    c.st.nontrivial(run::hash(&[2, D as u64, n as u64, leaf as u64, periodic as u64, kind0 as u64]));
    Ok(())
}
/// Far from every face the box costs next to nothing.
fn faces<const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = *r.pick(&[3000, 10_000, 30_000]);
    let leaf = *r.pick(&[1, 8, 16, 32]);
    let cube = r.chance(0.4);
    let side: [f64; D] = [(); D].map(|_| if cube { 1.0 } else { r.unif(0.3, 3.0) });
    let least = side.iter().fold(f64::INFINITY, |m, x| m.min(*x));
    let data: Vec<[X; D]> = (0..n).map(|_| side.map(|s| X(s * r.f()))).collect();
    let b = Build { leaf, par: None };
    let t = build(&data, b).map_err(|e| format!("{e:?}"))?;
    let p = build(&data, b).and_then(|t| t.with_boxsize(&side.map(X))).map_err(|e| format!("{e:?}"))?;
    for _ in 0..20 {
        let q: [X; D] = side.map(|s| X(s * r.unif(0.4, 0.6)));
        for kind in kinds() {
            let k = if kind == Kind::One { 1 } else { *r.pick(&[1, 5, 20]) };
            let a = qk(&t, &q, k).map_err(|e| format!("{e:?}"))?;
            if root(*a.d.last().unwrap()) > 0.35 * least {
                continue;
            }
            let (o1, o2) = (cost(&t, &q, k, kind)?, cost(&p, &q, k, kind)?);
            let extra = (1u64 << D) * (6 * D as u64 + 12);
            c.st.max("extra operations of a periodic query far from the faces", o2.saturating_sub(o1) as f64);
            ensure!(o2 <= o1 + extra, "{n} points in {D}D {b:?}: {} k={k} at {q:?}, far from the faces of {side:?}, takes {o2} scalar operations in a box and {o1} without", name(kind));
            c.st.eval();
            c.st.add("periodic queries far from the faces", 1);
        }
    }
    c.st.nontrivial(run::hash(&[3, D as u64, n as u64, leaf as u64, c.idx]));
    Ok(())
}
fn main() {
    fxh::alloc::fill();
    run::main("C21", |c| {
        let d = c.rng.below(3);
        match (c.rng.below(4), d) {
            (0, 0) => faces::<1>(c),
            (0, 1) => faces::<2>(c),
            (0, _) => faces::<3>(c),
            (1, 0) => worst::<1>(c),
            (1, 1) => worst::<2>(c),
            (1, _) => if c.rng.chance(0.5) { worst::<3>(c) } else { worst::<5>(c) },
            (_, 0) => uniform::<1>(c),
            (_, 1) => uniform::<2>(c),
            (_, _) => uniform::<3>(c),
        }
    })
}
