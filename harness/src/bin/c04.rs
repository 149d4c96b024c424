use fxh::prelude::*;
// C04: periodic k nearest neighbours, single and batch, against exhaustive search over the images.
fn case<T: Sc, const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    // now and then one that is more than 20 levels deep
    let huge = D <= 3 && c.idx % 20_000 >= 520 && c.idx % 20_000 < 523;
    let big = huge || c.idx % 250 == 20;
    let n = if huge { 1_100_000 + r.below(50_000) } else if big { r.range(100_000, 110_000) } else if r.chance(0.4) { r.range(1, 30) } else { gen::size(r).min(2000) };
    let n = if D > 9 { n.min(6) } else if D > 7 { n.min(40) } else { n };
    let (data, bx, kind) = gen::boxed::<T, D>(r, n);
    let mut b = gen::build(r, n);
    if huge {
        b.leaf = r.range(1, 3)
    }
    let what = || format!("{}x{D} {kind} n={n} {b:?} box {bx:?}", T::NAME);
    let t = build(&data, b).map_err(|e| format!("{}: build failed: {e}", what()))?;
    let t = t.with_boxsize(&bx).map_err(|e| format!("{}: box rejected: {e}", what()))?;
    let nq = if D > 9 { 1 } else if big { 2 } else if D > 4 { r.range(2, 5) } else { r.range(4, 14) };
    let k = gen::k(r, n).min(if big { 2000 } else { usize::MAX });
    let qs: Vec<[T; D]> = (0..nq).map(|_| gen::query_box(r, &data, &bx)).collect();
    for (j, q) in qs.iter().enumerate() {
        let a = qk(&t, q, k).map_err(|e| format!("{}: query {q:?} k={k} failed: {e}", what()))?;
        check_k(&data, Some(&bx), q, k, &a).map_err(|e| format!("{}: query {j} k={k}: {e}", what()))?;
        let mut ids = a.i.clone();
        ids.sort();
        ids.dedup();
        let twice = a.i.len() - ids.len();
        let via = a.i.iter().zip(&a.d).filter(|(i, d)| dist(q, &data[**i as usize]) > root(**d) * 1.001).count();
        c.st.add("neighbours judged", a.i.len() as u64);
        c.st.add("neighbours through an image", via as u64);
        c.st.add("points reported through several images", twice as u64);
        if via > 0 {
            c.st.nontrivial(run::hash(&[D as u64, T::EPS.to_bits(), n as u64, b.leaf as u64, k as u64, q[0].bits()]));
        }
    }
    c.st.evals(nq);
    if BATCH {
        for with in [false, true] {
            let name = if with { "query_nearest_k_parallel_with" } else { "query_nearest_k_parallel" };
            let a = qkp(&t, &qs, k, with).map_err(|e| format!("{}: {name} k={k} failed: {e}", what()))?;
            check_batch(&data, Some(&bx), &qs, k, &a).map_err(|e| format!("{}: {name} k={k}: {e}", what()))?;
            c.st.evals(nq);
            c.st.add("batch rows", nq as u64);
        }
    }
    c.st.add(&format!("D={D}"), nq as u64);
    c.st.add(T::NAME, nq as u64);
    c.st.add(kind, nq as u64);
    if huge {
        c.st.add("trees of 1100000+ points", 1)
    }
    c.st.sample(what);
    Ok(())
}
fn main() {
    fxh::alloc::fill();
    run::main("C04", |c| {
        let (w, d) = run::pick_dim9(&mut c.rng);
        // rarely, more than 16 axes: more images than 16 bits count
        let d = if c.rng.chance(0.002) { 17 } else { d };
        dispatch17!(w, d, case(c))
    })
}
