use fxh::inst::{self, X};
use fxh::prelude::*;
use std::sync::OnceLock;
// C08: however a tree is built, and in whatever order the rows are, it gives the same answers.
fn pool(i: usize) -> &'static rayon::ThreadPool {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    &P.get_or_init(|| [1, 2, 3, 5, 8, 24].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect())[i % 6]
}
fn case<T: Sc, const D: usize>(c: &mut Case, chaos: bool) -> R {
    let r = &mut c.rng;
    let big = !chaos && c.idx % 90 == 13;
    let n = if big { r.range(100_000, 160_000) } else if chaos { r.range(1, 400) } else { gen::size(r).min(2500) };
    let periodic = r.chance(0.35) && D <= 9 && !(big && D > 7);
    let n = if D > 7 && periodic { n.min(40) } else { n };
    let kind = gen::any_kind(r);
    let (data, bx) = if periodic {
        let (d, b, _) = gen::boxed::<T, D>(r, n);
        (d, Some(b))
    } else {
        (gen::points::<T, D>(r, n, kind), None)
    };
    let leaf0 = *r.pick(&[1, 4, 16]);
    let what = format!("{}x{D} {} n={n} box {bx:?}", T::NAME, if periodic { "boxed" } else { gen::kind_name(kind) });
    // rows in another order: perm[new] = old
    let mut perm: Vec<usize> = (0..n).collect();
    r.shuffle(&mut perm);
    let shuffled: Vec<[T; D]> = perm.iter().map(|i| data[*i]).collect();
    let reference = {
        let t = build(&data, Build { leaf: leaf0, par: None }).map_err(|e| format!("{what}: reference build failed: {e}"))?;
        match &bx {
            Some(b) => t.with_boxsize(b).map_err(|e| format!("{what}: box rejected: {e}"))?,
            None => t,
        }
    };
    let nq = if big { 6 } else { 8 };
    let qs: Vec<[T; D]> = (0..nq).map(|_| match &bx { Some(b) => gen::query_box(r, &data, b), None => gen::query(r, &data) }).collect();
    let ks: Vec<usize> = (0..nq).map(|_| { let k = gen::k(r, n); if big { k.min(500) } else { k } }).collect();
    let ones: Vec<N1<T, D>> = qs.iter().map(|q| q1(&reference, q)).collect::<Result<_, _>>().map_err(|e| format!("{what}: {e}"))?;
    let manys: Vec<NK<T, D>> = qs.iter().zip(&ks).map(|(q, k)| qk(&reference, q, *k)).collect::<Result<_, _>>().map_err(|e| format!("{what}: {e}"))?;
    let sh = shift(bx.as_ref());
    let variants = if big { 3 } else { 6 };
    for v in 0..variants {
        let mut b = gen::build(r, n);
        if v % 3 == 0 {
            b.leaf = leaf0;
            b.par = Some(r.below(7).min((usize::BITS - n.leading_zeros()) as usize));
        }
        if big {
            b.leaf = *r.pick(&[leaf0, 8, 40]);
            b.par = *r.pick(&[None, Some(0), Some(1), Some(2), Some(4)]);
        }
        let reorder = v % 2 == 1;
        let src: &[[T; D]] = if reorder { &shuffled } else { &data };
        let pi = r.below(7);
        let how = format!("{what}, {b:?}{}{} against a serial build with leaf size {leaf0}", if reorder { ", rows reordered" } else { "" }, if pi < 6 { ", in a pool" } else { "" });
        let t = if pi < 6 { pool(pi).install(|| build(src, b)) } else { build(src, b) }.map_err(|e| format!("{how}: build failed: {e}"))?;
        if n < 100_000 && b.leaf == leaf0 {
            ensure!(t.size() == reference.size(), "{how}: {} nodes and {}", t.size(), reference.size());
            c.st.add("node counts compared", 1);
        }
        let t = match &bx {
            Some(b) => t.with_boxsize(b).map_err(|e| format!("{how}: box rejected: {e}"))?,
            None => t,
        };
        let old = |i: u64| -> Result<u64, String> {
            ensure!((i as usize) < n, "index {i} of {n}");
            Ok(if reorder { perm[i as usize] as u64 } else { i })
        };
        for ((q, k), (o, m)) in qs.iter().zip(&ks).zip(ones.iter().zip(&manys)) {
            let a = q1(&t, q).map_err(|e| format!("{how}: {e}"))?;
            ensure!(near::<T, D>(root(a.d), root(o.d), sh), "{how}: nearest at {:?} and {:?} (query {q:?})", a.d, o.d);
            let i = old(a.i).map_err(|e| format!("{how}: {e}"))?;
            let at = min_image(q, &data[i as usize], bx.as_ref());
            ensure!(i == o.i || near::<T, D>(at, root(o.d), sh), "{how}: nearest is row {} and row {}, which is at {at:e} instead of {:e} (query {q:?})", o.i, i, root(o.d));
            let a = qk(&t, q, *k).map_err(|e| format!("{how}: {e}"))?;
            ensure!(a.d.len() == m.d.len() && a.i.len() == m.i.len(), "{how}: {} and {} neighbours, k={k}", a.d.len(), m.d.len());
            for j in 0..a.d.len() {
                ensure!(near::<T, D>(root(a.d[j]), root(m.d[j]), sh), "{how}: neighbour {j} of {k} at {:?} and {:?} (query {q:?})", a.d[j], m.d[j]);
            }
            let idx = a.i.iter().map(|i| old(*i)).collect::<Result<Vec<_>, _>>().map_err(|e| format!("{how}: {e}"))?;
            if idx != m.i {
                check_members(&data, bx.as_ref(), q, &a.d, &idx).map_err(|e| format!("{how}: k={k}: {e}"))?;
                c.st.add("rows with ties resolved differently", 1);
            }
            c.st.evals(2);
            c.st.add("pairs of answers compared", 2);
        }
        c.st.add(if b.par.is_some() { "parallel builds" } else { "serial builds" }, 1);
        if reorder {
            c.st.add("reordered builds", 1)
        }
        if n > b.leaf {
            c.st.nontrivial(run::hash(&[D as u64, T::EPS.to_bits(), kind as u64, n as u64, b.leaf as u64, b.par.map_or(99, |x| x as u64), pi as u64]));
        }
    }
    if big {
        c.st.add("data sets of 100000+ points", 1)
    }
    // the reference itself against exhaustive search
    let j = r.below(nq);
    check1(&data, bx.as_ref(), &qs[j], &ones[j]).map_err(|e| format!("{what}: reference: {e}"))?;
    c.st.sample(|| what);
    Ok(())
}
fn main() {
    fxh::alloc::fill();
    inst::chaos(113);
    run::main("C08", |c| {
        if c.rng.chance(0.25) {
            c.st.add("cases with disturbed schedules", 1);
            let r = if c.rng.chance(0.5) { case::<X, 2>(c, true) } else { case::<X, 3>(c, true) };
            c.st.max("schedule disturbances", inst::disturbed() as f64);
            return r;
        }
        let (w, d) = run::pick_dim17(&mut c.rng);
        dispatch17!(w, d, case(c, false))
    })
}
